"""C10: run executes each requested item once, in order, and shapes results alike."""
from pfcmon import gen
from pfcmon.model import Model, fresh_src, fresh_value
from pfcmon.util import same
from pfcmon.world import NONE, World

ID = 'C10'
RULE = ('Random nested projects (dicts, lists with nested dicts, functions, classes, specific classes, shared between '
        'items), run by string, Selector item of an item or a section, and lists of these with repetitions, with zero '
        'to three plugins whose pre-run hooks return nothing, a path, a Selector item, a list, or change the passed '
        'list, and whose post-run hooks return results or change the results. Every call of user code is recorded '
        'with the configuration it received; results are unique objects of many types (None, lists, empty containers). '
        'The sequence of calls and the returned structure must be exactly the requested ones. Non-trivial: more than '
        'one item run; distinct by project shape and request.')
ASSUMPTIONS = ['sections of specific class dicts are not runnable as a whole (run raises ValueError)',
               'default failure policy (with force_continue every item is a run of the runner of its own)',
               'a post-run hook returns one result which is not a list']
REQUIRED = {'runs': 500, 'items_run': 1000, 'section_runs': 100, 'nested_sections': 50, 'list_runs': 100,
            'list_of_one': 10, 'repeated_items': 20, 'pre_run_additions': 50, 'in_place_additions': 10,
            'post_run_additions': 50, 'class_items': 50, 'specific_items': 50, 'results_none': 20,
            'results_list': 20, 'views_passed': 50}
CASES = {'quick': 1600, 'thorough': 12000}


def make_plugin(case):
    from pyfileconf import hookimpl

    class P:
        pre, post, mutate_pre, mutate_post = None, None, None, None

        @hookimpl
        def pyfileconf_pre_run(self, section_path_str_or_list, pm):
            case.pre_calls.append((self, section_path_str_or_list, pm))
            if self.mutate_pre is not None and isinstance(section_path_str_or_list, list):
                self.mutate_pre(section_path_str_or_list)
            return self.pre

        @hookimpl
        def pyfileconf_post_run(self, results, runner):
            case.post_calls.append((self, results, runner))
            return self.post

    return P()


class Case:
    def __init__(self):
        self.pre_calls, self.post_calls = [], []


def view(name, path):
    from pyfileconf import Selector
    v = Selector()
    for part in [name] + path.split('.'):
        v = getattr(v, part)
    return v


def flatten(shape):
    if isinstance(shape, str):
        return [shape]
    return [x for y in shape for x in flatten(y)]


def depth(shape):
    return 0 if isinstance(shape, str) else 1 + max([depth(x) for x in shape] or [0])


def run_case(rng, ctx):
    pr = gen.project(rng, simple=True, share_p=0.5, max_sections=3, nested_list=True)
    if rng.random() < 0.4:
        pr.restyle(rng)
    with World('c10') as w:
        name = rng.choice(['pm', 'pm', 'sec', 'project'])
        m = Model(w, pr, name)
        pm = pr.build(w, name=name)
        for p in pr.items:
            keys = [k for k in m.items[p].file]
            if keys and rng.random() < 0.9:
                m.write_item(rng, p, keep=0.2)
        m.load()
        ctx.log(pr.pipeline_dict_src(), [s['tree'] for s in pr.specifics])
        case = Case()
        plugins = []
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            plugins.append(w.plugin(make_plugin(case)))
        sections = list(pr.sections)
        items = list(pr.items)
        for step in range(rng.randint(1, 4)):
            one_run(rng, ctx, w, pr, m, pm, case, plugins, sections, items)


def one_run(rng, ctx, w, pr, m, pm, case, plugins, sections, items):
    outs = []

    def hook(kw):
        from pfcmon.world import Token
        w.R.seq += 1
        n = w.R.seq
        v = rng.choice([NONE, [], [n], (n, n), {}, {'k': n}, 0, '', False, f'r{n}', [[n], [n]]]) \
            if rng.random() < 0.5 else Token('r', {}, n)
        ctx.ev('results_none' if v is NONE else 'results_list' if isinstance(v, list) else 'results_other')
        outs.append(None if v is NONE else v)
        return v

    for it in pr.items.values():
        w.R.hooks[it.run_label] = hook

    def one(allow_section=True):
        if allow_section and rng.random() < 0.4:
            sec = rng.choice(sections)
            shape = pr.shape(sec)
            ctx.ev('section_runs')
            if depth(shape) > 1:
                ctx.ev('nested_sections')
            return sec, shape
        p = rng.choice(items)
        return p, p

    def arg(path):
        if rng.random() < 0.25:
            ctx.ev('views_passed')
            return view(pm.name, path)
        return path

    is_list = rng.random() < 0.5
    reqs = [one() for _ in range(rng.choice([0, 1, 1, 2, 3, 4]) if is_list else 1)]
    if is_list and len(reqs) > 1 and rng.random() < 0.3:
        reqs.append(rng.choice(reqs))
    given = [arg(p) for p, _ in reqs]
    if is_list:
        ctx.ev('list_runs')
        if len(reqs) == 1:
            ctx.ev('list_of_one')
        if len({p for p, _ in reqs}) < len(reqs):
            ctx.ev('repeated_items')
    passed = given if is_list else given[0]
    # plugins
    added = {}
    for pl in plugins:
        pl.pre = pl.mutate_pre = pl.post = None
    for pl in plugins:
        r = rng.random()
        extra = [one() for _ in range(rng.choice([0, 1, 2, 2, 3, 5]))]
        added[id(pl)] = []
        if r < 0.25:
            pass
        elif r < 0.5 and extra:
            extra = extra[:1]
            pl.pre = arg(extra[0][0])
            added[id(pl)] = extra
        elif r < 0.75:
            pl.pre = [arg(p) for p, _ in extra]
            added[id(pl)] = extra
        elif is_list:
            e = one()

            def mutate(lst, e=e):
                lst.append(e[0])
                reqs.append(e)
                ctx.ev('in_place_additions')
            pl.mutate_pre = mutate
        if rng.random() < 0.5:
            w.R.seq += 1
            pl.post = rng.choice([f'post{w.R.seq}', {'post': w.R.seq}, w.R.seq, (w.R.seq,)])
            others = [x.post for x in plugins if x is not pl and getattr(x, 'post', None) is not None]
            if others and rng.random() < 0.3:
                pl.post = rng.choice(others)
                ctx.ev('equal_post_run_additions')
    ctx.log('run', [p for p, _ in reqs], 'list' if is_list else 'single',
            [(pl.pre, bool(pl.mutate_pre), pl.post) for pl in plugins])
    n0 = len(w.R.calls)
    case.pre_calls.clear()
    case.post_calls.clear()
    given_copy = list(given)
    res = pm.run(passed)
    calls = w.R.calls[n0:]
    ctx.ev('runs')
    # hooks: each plugin once, with what was passed
    ctx.check(sorted(id(p) for p, _, _ in case.pre_calls) == sorted(id(p) for p in plugins),
              f'pre_run hooks were called {len(case.pre_calls)} times for {len(plugins)} plugins')
    ctx.check(all(a is passed and x is pm for _, a, x in case.pre_calls), 'pre_run hooks got something else')
    ctx.check(len(case.post_calls) == len(plugins), 'post_run hooks were not called once each')
    extra = [e for pl, _, _ in case.pre_calls for e in added[id(pl)]]
    if extra:
        ctx.ev('pre_run_additions')
    final = reqs + extra
    as_list = is_list or len(final) > 1
    # what was executed
    leaves = [p for _, shape in final for p in flatten(shape)]
    want_calls = [(pr.items[p].run_label, m.want(p)) for p in leaves]
    ctx.eq([l for l, _ in calls], [l for l, _ in want_calls], f'callables executed for {leaves}')
    for (l, kw), (_, want), p in zip(calls, want_calls, leaves):
        ctx.eq(kw, want, f'configuration of {p} executed at its position', ev='items_run')
        it = pr.items[p]
        ctx.ev('specific_items' if it.specific else f'{it.target.kind}_items')
    # the results
    it = iter(outs)

    def build(shape):
        if isinstance(shape, str):
            return next(it)
        return [build(x) for x in shape]

    want = [build(shape) for _, shape in final]
    if not as_list:
        want = want[0]
    posts = [pl.post for pl, _, _ in case.post_calls if pl.post is not None]
    if posts:
        ctx.ev('post_run_additions')
        want = (want if as_list else [want]) + posts
    identical(ctx, res, want, 'results')
    ctx.check(all(a is b for a, b in zip(given, given_copy)), 'run changed the list it was given')
    if len(leaves) > 1:
        ctx.case_key(pr.pipeline_dict_src(), [p for p, _ in final], is_list, len(posts))
    ctx.state(is_list, len(reqs), len(extra), len(posts), [depth(s) for _, s in final])
    ctx.sample = {'requested': [p for p, _ in final], 'list': is_list, 'executed': leaves}


def identical(ctx, got, want, what):
    """Same structure; leaves are the very objects which were returned."""
    ctx.ev('results_compared')
    if got is want:
        return
    ctx.check(type(got) is type(want) and type(want) is list and len(got) == len(want),
              lambda: f'{what}: observed {got!r}, specified {want!r}')
    for i, (g, x) in enumerate(zip(got, want)):
        identical(ctx, g, x, f'{what}[{i}]')
