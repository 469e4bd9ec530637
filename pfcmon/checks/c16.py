"""C16: failure policies isolate failing items and lose no result."""
import logging
import pdb
import re
import sys

from pfcmon import gen
from pfcmon.checks.c10 import identical, view
from pfcmon.model import Model, Observer, OBSERVERS, fresh_value
from pfcmon.world import NONE, Token, World

ID = 'C16'
RULE = ('Random projects and sequences of runs (single items, sections, lists with repetitions, paths and Selector '
        'items, items added by pre-run hooks) in which exceptions of many types are raised at random calls: by the '
        'item, by its constructor, by its config file, in runs which items make themselves, and as interrupts, under '
        'every policy (propagate, force_continue, auto_pdb with a function or the real pdb), set by constructor or '
        'attribute and changed between runs. A simulation of the policy predicts calls, results, debug calls, reported '
        'failures and the propagating exception; all are compared, and after every run configurations, object '
        'identities, the context stack and further runs. Non-trivial: a failing call; distinct by request and failures.')
ASSUMPTIONS = ['with force_continue the unit which fails is the requested path (a section stops at its failing item)',
               'no post-run hooks (under force_continue they run per requested path)',
               'user interrupts end the run in every policy']
REQUIRED = {'runs_plain': 200, 'runs_continue': 200, 'runs_pdb': 200, 'failing_runs': 400, 'failing_calls': 500,
            'failing_configs': 20, 'failing_constructors': 10, 'odd_results': 100, 'interrupts': 20, 'nested_runs': 50,
            'debug_function_calls': 50, 'pdb_interactions': 20, 'failures_reported': 200, 'partial_results': 100,
            'propagated': 100, 'observations': 2000, 'recovered': 20, 'section_requests': 100, 'successful_runs': 100}
CASES = {'quick': 900, 'thorough': 12000}


class Odd(Exception):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def __str__(self):
        raise RuntimeError('no str')

    def __repr__(self):
        return 'Odd'


class Plain(Exception):
    pass


def exception(rng, n):
    k = rng.randrange(14)
    return [ValueError(f'failure {n}'), KeyError('k'), KeyError(), AttributeError('item'), AttributeError(),
            RecursionError('x'), StopIteration(n), Odd(1, 2), Plain(n), ImportError('no module'), AssertionError(),
            OSError(2, 'nothing'), TypeError('bad % format %s {}'), IndexError([n])][k]


class Failed(Exception):
    def __init__(self, exc):
        self.exc = exc


class Interrupted(Exception):
    def __init__(self, exc):
        self.exc = exc


class Collect(logging.Handler):
    def __init__(self):
        super().__init__(logging.ERROR)
        self.texts = []

    def emit(self, record):
        self.texts.append(record.getMessage())


class Sim:
    """The specification: what a run does, with failures decided as it goes."""

    def __init__(self, case, mode, p_fail):
        self.case, self.mode, self.p = case, mode, p_fail
        self.calls, self.actions, self.errors, self.debug, self.batches = [], {}, [], [], []
        self.nested_want = {}
        self.inits = 0
        self.level = 0

    def run(self, reqs, is_list):
        if self.mode == 'continue':
            out, mine = [], []
            for path, shape in reqs:
                try:
                    out.append(self.shape(shape))
                except Failed as f:
                    self.errors.append((path, f.exc))
                    mine.append((path, f.exc))
            if mine:
                self.batches.append(mine)
            return out if is_list else out[0] if out else []
        try:
            out = [self.shape(s) for _, s in reqs]
        except Failed as f:
            if self.mode == 'pdb':
                self.debug.append(f.exc)
                return None
            raise
        return out if is_list else out[0]

    def shape(self, s):
        if isinstance(s, str):
            return self.item(s)
        return [self.shape(x) for x in s]

    def item(self, path):
        c, rng = self.case, self.case.rng
        st = c.m.items[path]
        if st.cur is None and path in c.booms:
            c.ctx.ev('failing_configs')
            raise Failed(c.booms[path])
        c.m.touch(path)
        it = st.item
        if it.target.kind == 'class' and not it.specific and not st.loaded and it.target.label in c.w.R.init_fail:
            c.ctx.ev('failing_constructors')
            raise Failed(c.w.R.init_fail[it.target.label])
        c.m.use(path)
        idx = len(self.calls)
        self.calls.append((it.run_label, c.m.want(path)))
        r = rng.random()
        if r < self.p:
            c.n += 1
            exc = exception(rng, c.n)
            c.ctx.ev('failing_calls')
            self.actions[idx] = ('raise', exc)
            raise Failed(exc)
        if c.interrupts and rng.random() < 0.06:
            exc = rng.choice([KeyboardInterrupt, SystemExit])()
            self.actions[idx] = ('raise', exc)
            c.ctx.ev('interrupts')
            raise Interrupted(exc)
        if self.level < 2 and r > 1 - 0.03 * (2 - self.level):
            is_list, reqs, given = c.request()
            self.actions[idx] = ('run', given if is_list else given[0])
            c.ctx.ev('nested_runs')
            self.level += 1
            try:
                self.nested_want[idx] = self.run(reqs, is_list)
            finally:
                self.level -= 1
        return ('call', idx)


class Case:
    def __init__(self, rng, ctx, w):
        self.rng, self.ctx, self.w = rng, ctx, w
        self.n = 0
        self.booms = {}
        self.interrupts = False
        self.pr = gen.project(rng, simple=True, share_p=0.4, max_sections=3)
        self.added = None

    # -- setting up ---------------------------------------------------------
    def build(self):
        rng, w, pr = self.rng, self.w, self.pr
        self.m = Model(w, pr, 'pm')
        self.mode = rng.choice(['plain', 'continue', 'pdb', 'realpdb'])
        self.pm = pr.build(w, load=False, **self.kwargs(self.mode))
        self.pm.load()
        for p in pr.items:
            r = rng.random()
            if r < 0.4:
                self.m.write_item(rng, p)
            elif r < 0.5:
                self.boom(p)
        self.pm.reload()
        self.m.load()
        sys.modules['vrec'].boom = self.booming
        for c in dict.fromkeys(it.target for it in pr.items.values() if it.target.kind == "class" and not it.specific):
            if rng.random() < 0.3:
                self.n += 1
                w.R.init_fail[c.label] = exception(rng, self.n)
        self.o = Observer(w, self.pm, self.m)

    def boom(self, path):
        """A config file which cannot be executed."""
        st = self.m.items[path]
        key = st.item.specific['key_attr'] if st.item.specific else None
        ks = [k for k in st.file if k != key]
        if not ks:
            return
        self.n += 1
        self.booms[path] = exception(self.rng, self.n)
        k = self.rng.choice(ks)
        self.w.write(self.m.base() + '/' + st.item.rel_file, 'import vrec\n' + ''.join(
            f'{x} = vrec.boom({path!r}, {v!r})\n' if x == k else f'{x} = {v!r}\n' for x, v in st.file.items()))

    def booming(self, path, value):
        if path in self.booms:
            raise self.booms[path]
        return value

    def kwargs(self, mode):
        return {'plain': {}, 'continue': {'force_continue': True}, 'pdb': {'auto_pdb': self.debug},
                'realpdb': {'auto_pdb': True}}[mode]

    def set_mode(self, mode):
        self.mode = mode
        kw = {'force_continue': False, 'auto_pdb': False, **self.kwargs(mode)}
        for k, v in kw.items():
            setattr(self.pm, k, v)

    # -- at run time ----------------------------------------------------------
    def debug(self, *a, **kw):
        self.debugged.append((sys.exc_info()[1], a))
        self.ctx.ev('debug_function_calls')

    def hook(self, label):
        def run(kw):
            idx = self.idx
            self.idx += 1
            what, arg = self.sim.actions.get(idx, (None, None))
            if what == 'raise':
                raise arg
            if what == 'run':
                self.nested_got[idx] = self.pm.run(arg)
            self.outs[idx] = odd = self.odd.get(idx, Token(label, kw, idx))
            if idx in self.odd:
                self.ctx.ev('odd_results')
            return NONE if odd is None else odd
        return run

    def request(self):
        rng, pr = self.rng, self.pr
        is_list = rng.random() < 0.6
        reqs, given = [], []
        for _ in range(rng.choice([0, 1, 2, 3, 4, 5]) if is_list else 1):
            if rng.random() < 0.3 and pr.sections:
                p = rng.choice(pr.sections)
                reqs.append((p, pr.shape(p)))
                self.ctx.ev('section_requests')
            elif reqs and rng.random() < 0.15:
                reqs.append(rng.choice(reqs))
            else:
                p = rng.choice(list(pr.items))
                reqs.append((p, p))
            given.append(view('pm', reqs[-1][0]) if rng.random() < 0.2 else reqs[-1][0])
        return is_list, reqs, given

    # -- one run ----------------------------------------------------------------
    def one(self):
        rng, ctx, w, m = self.rng, self.ctx, self.w, self.m
        if rng.random() < 0.4:
            self.set_mode(rng.choice(['plain', 'continue', 'pdb', 'realpdb']))
        is_list, reqs, given = self.request()
        added = []
        self.added = None
        if self.plugin and rng.random() < 0.5:
            p = rng.choice(list(self.pr.items))
            self.added = p
            added = [(p, p)]
        mode = 'pdb' if self.mode == 'realpdb' else self.mode
        sim = self.sim = Sim(self, mode, rng.choice([0, 0.15, 0.3, 0.6, 1]))
        self.interrupts = rng.random() < 0.3
        # hooks add to nested runs, too; keep those apart
        if added:
            sim.level = 2
        full = reqs + added
        as_list = is_list or len(full) > 1
        ctx.ev('runs_' + mode)
        want, exc, stopped = None, None, None
        try:
            want = sim.run(full, as_list)
        except Failed as f:
            exc = f.exc
        except Interrupted as f:
            stopped = f.exc
        ctx.log('run', self.mode, [p for p, _ in full], 'list' if as_list else 'single', 
                {i: a if a[0] == 'run' else type(a[1]).__name__ for i, a in sim.actions.items()},
                [(p, type(e).__name__) for p, e in sim.errors])
        # the real thing
        self.idx, self.outs, self.nested_got, self.debugged = 0, {}, {}, []
        self.odd = {i: rng.choice([None, None, 0, '', [], (), False, {}, [None], Plain('returned'), [[1], [2]]])
                    for i in range(len(sim.calls)) if rng.random() < 0.2}
        for it in self.pr.items.values():
            w.R.hooks[it.run_label] = self.hook(it.run_label)
        h = Collect()
        log = logging.getLogger('pyfileconf')
        log.addHandler(h)
        orig = pdb.Pdb.interaction

        def interaction(slf, frame, tb, *a):
            self.debugged.append((tb if isinstance(tb, BaseException) else sys.exc_info()[1], ()))
            ctx.ev('pdb_interactions')
        pdb.Pdb.interaction = interaction
        n0 = len(w.R.calls)
        got = raised = None
        try:
            got = self.pm.run(given if is_list else given[0])
        except BaseException as e:
            raised = e
        finally:
            pdb.Pdb.interaction = orig
            log.removeHandler(h)
        calls = w.R.calls[n0:]
        what = f'{self.mode} run of {[p for p, _ in full]}'
        ctx.eq([c[0] for c in calls], [c[0] for c in sim.calls], f'{what}: callables executed')
        ctx.eq(calls, sim.calls, f'{what}: calls', ev='call_sequences')
        failing = bool(sim.errors or sim.debug or exc is not None or stopped)
        ctx.ev('failing_runs' if failing else 'successful_runs')
        if stopped is not None:
            ok = raised is stopped if mode == 'plain' else isinstance(raised, (type(stopped), SystemExit))
            ctx.check(ok, f'{what}: interrupt {type(stopped).__name__} gave {type(raised).__name__}')
        elif exc is not None:
            ctx.check(raised is exc, f'{what}: propagated {type(raised).__name__} instead of the exception of the item, '
                                     f'{type(exc).__name__}')
            ctx.ev('propagated')
        else:
            ctx.check(raised is None, lambda: f'{what}: raised {type(raised).__name__}')
            self.compare(got, want, what + ': results')
            if sim.errors and want:
                ctx.ev('partial_results')
        for i, x in sim.nested_want.items():
            if i in self.nested_got:
                self.compare(self.nested_got[i], x, f'{what}: results of a run by an item')
        # debug function
        ctx.check(len(self.debugged) == len(sim.debug), f'{what}: debug function called {len(self.debugged)} times for '
                                                        f'{len(sim.debug)} failing runs')
        for (e, a), x in zip(self.debugged, sim.debug):
            ctx.check(e is x or x in a, f'{what}: debug function does not see the exception')
        # reports
        if mode == 'continue' and not stopped:
            for p, e in sim.errors:
                pat = re.compile(r'(?<![\w.])' + re.escape(p) + r'(?![\w.])')
                ctx.check(any(pat.search(t) and type(e).__name__ in t for t in h.texts),
                          f'{what}: failure of {p} ({type(e).__name__}) was not reported', ev='failures_reported')
            for batch in sim.batches:
                # one summary per run tells everything which failed in it
                pats = [(re.compile(r'(?<![\w.])' + re.escape(p) + r'(?![\w.])'), type(e).__name__) for p, e in batch]
                ctx.check(any(all(a.search(t) and b in t for a, b in pats) and
                              all(t.count(b) >= sum(x == b for _, x in pats) for b in {x for _, x in pats})
                              for t in h.texts),
                          lambda: f'{what}: no report names all failures, {[(p, type(e).__name__) for p, e in batch]}',
                          ev='summaries')
            if not sim.errors:
                ctx.check(not h.texts, f'{what}: errors reported although nothing failed: {h.texts}')
        elif mode == 'pdb' and sim.debug and not stopped:
            for e in sim.debug:
                ctx.check(any(type(e).__name__ in t for t in h.texts), f'{what}: the exception was not reported')
        if failing:
            self.keys.append((self.mode, [p for p, _ in full], sorted(sim.actions), [p for p, _ in sim.errors]))

    def compare(self, got, want, what):
        def build(x):
            if isinstance(x, tuple):
                return self.outs[x[1]]
            return None if x is None else [build(y) for y in x]
        want = build(want)
        if want is None:
            self.ctx.check(got is None, f'{what}: {got!r} instead of None')
        else:
            identical(self.ctx, got, want, what)

    def settled(self):
        """Nothing of the failure is left."""
        rng, ctx = self.rng, self.ctx
        from pyfileconf import context
        frames = list(context.stack)
        ctx.check(not frames, f'after the run, items are still considered running or loading: {frames}', ev='stacks')
        if rng.random() < 0.3:
            # causes fixed
            if self.booms or self.w.R.init_fail:
                ctx.ev('recovered')
            self.booms.clear()
            self.w.R.init_fail.clear()
        if rng.random() < 0.4:
            p = rng.choice([p for p in self.m.items if self.ok(p)] or [None])
            if p and self.m.free_keys(p):
                d = {rng.choice(self.m.free_keys(p)): fresh_value(rng)}
                ctx.log('update', p, d)
                self.pm.update(d, section_path_str=p)
                self.m.update(p, d)
        self.sim = Sim(self, 'plain', 0)
        for p in rng.sample(list(self.m.items), min(len(self.m.items), 4)):
            if not self.ok(p):
                continue
            how = rng.choice(OBSERVERS)
            self.idx, self.outs, self.nested_got, self.debugged = 0, {}, {}, []
            for it in self.pr.items.values():
                self.w.R.hooks.pop(it.run_label, None)
            self.o.check(ctx, p, how, f'after a {self.mode} run')
            if self.m.items[p].loaded:
                obj = self.pm.get(p)
                ctx.check(self.ids.setdefault(p, obj) is obj, f'{p} is no longer the same object', ev='identity')

    def ok(self, p):
        st = self.m.items[p]
        if st.cur is None and p in self.booms:
            return False
        return st.loaded or st.item.specific or st.item.target.label not in self.w.R.init_fail


def run_case(rng, ctx):
    from pyfileconf import hookimpl
    with World('c16') as w:
        c = Case(rng, ctx, w)
        c.keys, c.ids = [], {}
        c.build()
        c.plugin = None
        if rng.random() < 0.3:
            class P:
                @hookimpl
                def pyfileconf_pre_run(self):
                    return c.added
            c.plugin = w.plugin(P())
        for _ in range(rng.randint(2, 6)):
            c.one()
            c.added = None
            c.settled()
        if rng.random() < 0.1:
            try:
                w.manager('bad', 'pipeline_dict = {}\n', load=False, auto_pdb=True, force_continue=True)
            except ValueError:
                ctx.ev('conflicting_policies_refused')
            else:
                ctx.fail('a manager with conflicting policies was not refused')
        if c.keys:
            ctx.case_key(c.keys)
        ctx.state(c.keys)
        ctx.sample = {'failing runs': [repr(k)[:200] for k in c.keys]}
