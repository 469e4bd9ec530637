"""C11: iterative runs cover the product, each case under exactly its own config."""
import itertools

from pfcmon import gen
from pfcmon.checks.c10 import flatten, identical
from pfcmon.model import Model, Observer, fresh_src, fresh_value
from pfcmon.util import same
from pfcmon.world import World

ID = 'C11'
RULE = ('Random projects in one or two managers; random lists of config updates (several items, several updates for '
        'the same item in any order, differing sets of keys, repeated updates, arrays and frames as values) passed to '
        'run_product, run_product_gen and IterativeRunner with random run items (items, sections, lists); runners are '
        'run repeatedly, after failures of a body at a random call, after partially consumed generators, after '
        'updates made since the runner was created, and with subclasses skipping cases and hooks adding cases. Inside '
        'every call of user code the monitor reads the configuration of every mentioned item through its manager and '
        'its object and compares it with the one of the case this call belongs to. Non-trivial: at least two cases; '
        'distinct by updates and operations.')
ASSUMPTIONS = ['nobody else updates the mentioned items while a case runs or between the cases of one run',
               'values which are equal (==) are interchangeable',
               'updates name items by strings']
REQUIRED = {'cases_run': 1000, 'calls_observed': 1000, 'mentioned_configs_compared': 3000, 'restored_keys': 200,
            'failed_runs': 30, 'reruns': 30, 'runs_after_updates': 30, 'partial_generators': 20,
            'manager_crossing_runs': 30, 'array_cases': 10, 'skipped_cases': 20, 'added_cases': 20}
CASES = {'quick': 700, 'thorough': 9000}


class Boom(Exception):
    pass


def value(rng):
    import numpy as np
    import pandas as pd
    r = rng.random()
    if r < 0.85:
        return eval(fresh_src(rng))
    n = eval('1')
    k = rng.randrange(3)
    n = rng.randint(0, 10 ** 6)
    return [np.array([n, n + 1]), pd.DataFrame({'a': [n, 2]}), {'arr': n}][k]


class G:
    def __init__(self, m, pm, o):
        self.m, self.pm, self.o = m, pm, o


def run_case(rng, ctx):
    with World('c11') as w:
        names = rng.choice([['pm'], ['pm', 'pm2'], ['pm', 'p']])
        gs = {}
        for i, nm in enumerate(names):
            pr = gen.project(rng, nested_list=rng.random() < 0.4, simple=True, share_p=0.5, max_sections=2, tag=f't{i}')
            m = Model(w, pr, nm)
            pm = pr.build(w, name=nm)
            for p in pr.items:
                if rng.random() < 0.4:
                    m.write_item(rng, p)
            m.load()
            gs[nm] = G(m, pm, Observer(w, pm, m))
        case = Iter(rng, ctx, w, gs)
        for it in (it for g in gs.values() for it in g.m.pr.items.values()):
            w.R.hooks[it.run_label] = case.hook
        ops = []
        for _ in range(rng.randint(1, 3)):
            spec = case.spec()
            if spec is None:
                continue
            ops.append(spec.describe())
            ctx.log('runner', ops[-1])
            case.exercise(spec)
        if ops:
            ctx.case_key(ops)
        ctx.sample = {'runners': ops}


class Spec:
    def describe(self):
        return (self.how, self.base, [x for x in self.run], [(u[0], sorted(u[1])) for u in self.updates], self.skip,
                len(self.added))


class Iter:
    def __init__(self, rng, ctx, w, gs):
        self.rng, self.ctx, self.w, self.gs = rng, ctx, w, gs
        self.active = None

    # -- a runner ----------------------------------------------------------------
    def split(self, full):
        nm, _, p = full.partition('.')
        return self.gs[nm], p

    def spec(self):
        rng = self.rng
        s = Spec()
        s.how = rng.choice(['product', 'gen', 'runner', 'runner'])
        s.base = rng.choice(list(self.gs)) if s.how != 'runner' or rng.random() < 0.3 else None
        names = [s.base] if s.base else list(self.gs)
        full = [f'{nm}.{p}' for nm in names for p in self.gs[nm].m.items]
        targets = [f for f in full if self.split(f)[0].m.free_keys(self.split(f)[1])]
        if not targets:
            return None
        many = rng.random() < 0.15
        targets = rng.sample(targets, min(len(targets), rng.randint(4, 6) if many else rng.randint(1, 3)))
        s.updates = []
        if len(targets) > 3:
            self.ctx.ev('many_items_mentioned')
        for f in targets:
            g, p = self.split(f)
            free = g.m.free_keys(p)
            for _ in range(rng.choice([1, 1, 2]) if many else rng.randint(1, 3)):
                ks = rng.sample(free, rng.randint(1, len(free)))
                s.updates.append((f, {k: value(rng) for k in ks}))
            if many:
                continue
            if rng.random() < 0.2:
                s.updates.append((f, dict(s.updates[-1][1])))
            if rng.random() < 0.2:
                # the value it has anyway
                k = rng.choice(free)
                s.updates.append((f, {k: g.m.want(p)[k]}))
            if rng.random() < 0.1:
                s.updates.append((f, {}))
        if rng.random() < 0.6:
            rng.shuffle(s.updates)
        sections = [f'{nm}.{x}' for nm in names for x in self.gs[nm].m.pr.sections]
        pool = targets if rng.random() < 0.5 else full
        if rng.random() < 0.25 and sections:
            pool = sections
        s.run = [rng.choice(pool)] if rng.random() < 0.6 else [rng.choice(full + sections) for _ in range(
            rng.randint(1, 3))]
        s.as_list = len(s.run) > 1 or rng.random() < 0.3
        s.skip = rng.randint(2, 3) if s.how == 'runner' and rng.random() < 0.3 else None
        s.added = []
        # product of the updates grouped by item, in the order of first mention
        groups = {}
        for f, d in s.updates:
            groups.setdefault(f, []).append((f, d))
        s.cases = [list(c) for c in itertools.product(*groups.values())]
        if len(s.cases) > 24:
            return None
        if rng.random() < 0.15:
            s.added = [[(f, {}) if rng.random() < 0.3 else (f, dict(rng.choice(groups[f])[1])) for f in groups]]
            s.cases += s.added
            self.ctx.ev('added_cases')
        s.mentioned = list(groups)
        return s

    def as_conf(self, s, f, d):
        sp = f[len(s.base) + 1:] if s.base else f
        return {'section_path_str': sp, **d}

    def exercise(self, s):
        from pyfileconf import IterativeRunner, hookimpl
        from pyfileconf.plugin import manager as pman
        rng, ctx = self.rng, self.ctx
        strip = (lambda x: x[len(s.base) + 1:]) if s.base else (lambda x: x)
        run = [strip(x) for x in s.run]
        run_arg = run if s.as_list else run[0]
        updates = [self.as_conf(s, f, d) for f, d in s.updates]
        if len({f.partition('.')[0] for f in s.mentioned + s.run}) > 1:
            ctx.ev('manager_crossing_runs')
        s.leaves = []
        s.shape = []
        for x in s.run:
            g, p = self.split(x)
            shape = p if p in g.m.items else g.m.pr.shape(p)
            s.shape.append(shape)
            s.leaves += [f'{g.m.name}.{q}' for q in flatten(shape)]
        plugin = None
        if s.added:
            extra = [tuple(self.as_conf(s, f, d) for f, d in c) for c in s.added]

            class P:
                @hookimpl
                def pyfileconf_iter_modify_cases(self, cases, runner):
                    cases.extend(extra)
            plugin = self.w.plugin(P())
        try:
            if s.how == 'runner':
                cls = IterativeRunner
                if s.skip:
                    class cls(IterativeRunner):
                        n = 0

                        def should_run(self, case):
                            type(self).n += 1
                            return type(self).n % s.skip != 0
                runner = cls(run_arg, updates, **({'base_section_path_str': s.base} if s.base else {}))
                start = self.creation(s)
                for i in range(rng.randint(1, 3)):
                    if i:
                        ctx.ev('reruns')
                    if rng.random() < 0.4:
                        self.disturb(s)
                        ctx.ev('runs_after_updates')
                    if s.skip:
                        cls.n = 0
                    self.one(s, start, runner.run if rng.random() < 0.5 else None, runner.run_gen, cls)
            else:
                if rng.random() < 0.4:
                    self.disturb(s)
                pm = self.gs[s.base].pm
                start = self.creation(s)
                if s.how == 'product':
                    self.one(s, start, lambda **kw: pm.run_product(run_arg, updates, **kw), None, None)
                else:
                    self.one(s, start, None, lambda: pm.run_product_gen(run_arg, updates), None)
            ctx.check(all(same(a, self.as_conf(s, f, d)) for a, (f, d) in zip(updates, s.updates)),
                      'the passed updates were changed')
        finally:
            if plugin is not None:
                pman.plm.unregister(plugin)

    def creation(self, s):
        out = {}
        for f in s.mentioned:
            g, p = self.split(f)
            out[f] = g.m.want(p)
        return out

    def disturb(self, s):
        """Updates, resets and uses of mentioned items made by others before the run."""
        rng = self.rng
        for _ in range(rng.randint(1, 3)):
            f = rng.choice(s.mentioned)
            g, p = self.split(f)
            r = rng.random()
            if r < 0.6:
                k = rng.choice(g.m.free_keys(p))
                d = {k: value(rng)}
                persist = rng.random() < 0.6
                self.ctx.log('update', f, d, persist)
                g.pm.update(d, section_path_str=p, pyfileconf_persist=persist)
                g.m.update(p, d, persist)
            elif r < 0.8:
                self.ctx.log('reset', f)
                g.pm.reset(p)
                g.m.reset(p)
            else:
                g.pm.get(p)

    # -- monitors -------------------------------------------------------------------
    def hook(self, kw):
        a = self.active
        if a is None:
            return None
        ctx = self.ctx
        c = a['calls']
        a['calls'] += 1
        L = len(a['s'].leaves)
        if c // L >= len(a['cases']):
            self.fail(f'{c + 1} calls for {len(a["cases"])} cases of {L} calls')
        conf = a['confs'][c // L]
        leaf = a['s'].leaves[c % L]
        g, p = self.split(leaf)
        label, kw = self.w.R.calls[-1]
        ctx.ev('calls_observed')
        if label != g.m.pr.items[p].run_label:
            self.fail(f'call {c} of the run executed {label}, specified {leaf}')
        want = conf.get(leaf)
        if want is None:
            want = g.m.want(p)
            ctx.ev('unmentioned_items_run')
        if not same(kw, want):
            self.fail(f'case {c // L}: {leaf} ran with {kw}, specified {want}')
        for f, want in conf.items():
            g, p = self.split(f)
            got = g.pm.config.get(p)
            got = {k: got[k] for k in g.m.items[p].file}
            ctx.ev('mentioned_configs_compared')
            if not same(got, want):
                self.fail(f'during case {c // L} ({a["cases"][c // L]}): config of {f} is {got}, specified {want}')
            if g.m.items[p].loaded:
                obj = g.o._attrs(g.pm.get(p), g.m.items[p].item)
                if not same(obj, want):
                    self.fail(f'during case {c // L}: object of {f} has {obj}, specified {want}')
                ctx.ev('mentioned_objects_compared')
        if a['fail_at'] == c:
            raise Boom(c)
        out = ('result', c)
        a['outs'].append(out)
        return out

    def fail(self, msg):
        self.active['error'] = msg
        self.ctx.fail(msg)

    def one(self, s, start, run, gen_, cls):
        rng, ctx = self.rng, self.ctx
        cases = [c for i, c in enumerate(s.cases) if not s.skip or (i + 1) % s.skip != 0]
        if s.skip:
            ctx.ev('skipped_cases', len(s.cases) - len(cases))
        confs = []
        for c in cases:
            conf = {}
            for f, d in c:
                g, p = self.split(f)
                conf[f] = {**start[f], **d}
            confs.append(conf)
        for x, y in zip(confs, confs[1:]):
            for f in x:
                ctx.ev('restored_keys', sum(1 for k in x[f] if same(y[f][k], start[f][k]) and not same(x[f][k], y[f][k])))
        if any(type(v).__name__ in ('ndarray', 'DataFrame') for c in cases for _, d in c for v in d.values()):
            ctx.ev('array_cases')
        total = len(cases) * len(s.leaves)
        fail_at = rng.randrange(total) if total and rng.random() < 0.2 else None
        self.active = a = dict(s=s, calls=0, cases=cases, confs=confs, fail_at=fail_at, outs=[], error=None)
        want_cases = [tuple(self.as_conf(s, f, d) for f, d in c) for c in cases]
        n_done = None
        got = None
        collect = True
        try:
            if run is not None:
                collect = rng.random() < 0.8
                got = run(collect_results=collect)
            else:
                it = gen_()
                if fail_at is None and rng.random() < 0.3 and len(cases) > 1:
                    n = rng.randint(1, len(cases) - 1)
                    got = [next(it) for _ in range(n)]
                    it.close()
                    ctx.ev('partial_generators')
                    n_done = n
                else:
                    got = []
                    for x in it:
                        got.append(x)
                        ctx.check(a['calls'] == len(got) * len(s.leaves),
                                  f'{a["calls"]} calls made when result {len(got)} was yielded')
        except Boom:
            ctx.check(fail_at is not None and a['calls'] == fail_at + 1, 'failed at another call')
            ctx.ev('failed_runs')
            n_done = fail_at // len(s.leaves) + 1
            got = None
        finally:
            self.active = None
        if a['error']:
            ctx.fail(a['error'])
        if fail_at is not None and got is not None:
            ctx.fail(f'the failure of call {fail_at} did not propagate')
        if n_done is None:
            n_done = len(cases)
            ctx.check(a['calls'] == total, f'{a["calls"]} calls, specified {len(cases)} cases of {len(s.leaves)} calls')
        if got is not None:
            if not collect:
                ctx.check(got == [], f'collect_results=False gave {got}')
            else:
                ctx.check(len(got) == n_done, f'{len(got)} results for {n_done} cases')
                outs = iter(a['outs'])

                def build(shape):
                    return next(outs) if isinstance(shape, str) else [build(x) for x in shape]
                for i, ((gc, gr), wc) in enumerate(zip(got, want_cases)):
                    ctx.eq(list(gc), list(wc), f'case {i} reported with the result')
                    want = [build(x) for x in s.shape]
                    identical(ctx, gr, want[0] if len(want) == 1 else want, f'result of case {i}')
        ctx.ev('cases_run', n_done)
        # the state it leaves: the last case
        for leaf in s.leaves if n_done else []:
            g, p = self.split(leaf)
            g.m.use(p)
        if n_done:
            for f, conf in confs[n_done - 1].items():
                g, p = self.split(f)
                st = g.m.touch(p)
                st.cur = dict(conf)
                st.persisted.update(conf)
        for g in self.gs.values():
            for p in rng.sample(list(g.m.items), min(3, len(g.m.items))):
                g.o.check(ctx, p, rng.choice(['get', 'attr', 'view', 'config', 'run']), 'after the iterative run')
