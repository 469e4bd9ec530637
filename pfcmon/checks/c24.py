"""C24: an operation which failed part way can be repeated."""
import errno
import sys

from pfcmon import core
from pfcmon.checks import c08
from pfcmon.checks.c19 import Faults
from pfcmon.model import fresh_src
from pfcmon.util import same
from pfcmon.world import World

ID = 'C24'
RULE = ('Networks of items as in C08 (config files which refer to and call other items, over several managers) and random '
        'histories of uses, updates, batch updates, resets, refreshes, edits and reloads, in which an operation fails at '
        'a random point: an error or interrupt at the n-th file operation, or raised by the n-th execution of a config '
        'file, constructor, function or hook. Then the stack, items which do not depend on the target, and both '
        'sides of the change are compared, the operation is repeated, and every item compared with the model for which '
        'the operation happened once. Distinct by operation and point of failure.')
ASSUMPTIONS = ['the dependencies of config files are acyclic', 'the same operation is repeated before any other',
               'what fails once does not fail again when repeated',
               'items are changed only if nothing runs them by their manager in what config files call']
REQUIRED = {'failed_operations': 300, 'failed_updates': 60, 'failed_uses': 60, 'failed_refreshes': 20, 'failed_resets': 20,
            'failed_by_file': 30, 'failed_by_config': 30, 'failed_by_constructor': 30, 'repeated': 300, 'unrelated_compared': 300,
            'between_old_and_new': 300, 'held_objects_compared': 500}
CASES = {'quick': 600, 'thorough': 9000}
TECHNIQUE = ('runtime monitoring: online reference-model monitor, with faults injected into the real code at file '
             'operations (audit hook) and calls of user code')


class UserError(Exception):
    pass


class Other(BaseException):
    """Like those of test runners and schedulers"""


class Points:
    """Counts the executions of user code, and raises at one of them."""

    def __init__(self, w):
        self.w = w
        self.left = None
        self.kind = None
        self.fired = None
        R = w.R
        rec, init = R.rec, R.init
        vrec = sys.modules['vrec']
        tick = vrec.tick

        def new_rec(label, kwargs):
            self.at('function', label)
            return rec(label, kwargs)

        def new_init(label, kwargs, obj=None):
            self.at('constructor', label)
            return init(label, kwargs, obj)

        def new_tick(name, value):
            self.at('config', name)
            return tick(name, value)
        R.rec, R.init, vrec.tick = new_rec, new_init, new_tick

    def at(self, kind, what):
        if self.left is None or (self.kind and kind != self.kind):
            return
        self.left -= 1
        if self.left <= 0:
            self.left = None
            self.fired = kind
            raise self.exc

    def arm(self, kind, n, exc):
        self.kind, self.left, self.exc, self.fired = kind, n, exc, None


class Hooks:
    def __init__(self, points):
        from pyfileconf import hookimpl
        for n in ('pyfileconf_pre_config_changed', 'pyfileconf_post_config_changed'):
            setattr(self, n, hookimpl(self.make(points, n)))

    def make(self, points, n):
        def hook(manager):
            points.at('hook', n)
        return hook


def operation(rng, ctx, net, pms):
    """Choose one; returns its name, target, how to do it, and how the model does it."""
    from pyfileconf import BatchUpdater
    changeable = [m for m in net.nodes if not m.fixed]
    n = rng.choice(changeable)
    touched = [m for m in net.nodes if m.touched]
    popular = [m for m in touched if not m.fixed and any(m in net.trans(k) for k in touched)]
    if popular and rng.random() < 0.6:
        n = rng.choice(popular)
    pm = pms[n.mgr]
    r = rng.random()
    if r < 0.35 or not touched:
        n = rng.choice([m for m in net.nodes if not m.loaded] or net.nodes)
        pm = pms[n.mgr]
        how = rng.choice(['get', 'run', 'config', 'view', 'get', 'run'])
        if how == 'run':
            return 'use run', n, lambda: pm.run(n.path), lambda: net.ran(n)
        if how == 'config':
            return 'use config', n, lambda: pm.config.get(n.path), lambda: net.touch(n)
        return f'use {how}', n, lambda: c08.attrs(n, pm.get(n.path) if how == 'get' else c08.view(n)), lambda: net.use(n)
    if n.fixed:
        n = rng.choice(changeable)
        pm = pms[n.mgr]
    free = n.free()
    if r < 0.7 and free:
        d = {k: eval(fresh_src(rng)) for k in rng.sample(free, rng.randint(1, min(2, len(free))))}

        def apply():
            n.persisted.update(d)
            net.touch(n)
        how = rng.randrange(3)
        if how == 0:
            return 'update batch', n, lambda: BatchUpdater().update([dict(section_path_str=n.full, **d)]), apply
        return 'update', n, lambda: pm.update(dict(d), section_path_str=n.path), apply
    if r < 0.8:
        def apply():
            n.persisted = {}
            net.touch(n)
        return 'reset', n, lambda: pm.reset(n.path), apply
    if not n.touched:
        net.touch(n)
        pm.config.get(n.path)
    if rng.random() < 0.7:
        net.touch(n)
        n.exprs = net.random_exprs(n, rng.choice([0, 0.5, 0.8]))
        c08.write(net, n)

    def apply():
        net.touch(n)
        for m in net.deps(n):
            net.use(m)
    return 'refresh', n, lambda: pm.refresh(n.path), apply


def single(e):
    """Whether a value comes along one chain of references, so it cannot be half old and half new"""
    while e[0] == 'wrap':
        e = e[2]
    if e[0] == 'call':
        return False
    return e[0] == 'const' or single(e[1].exprs[e[2]])


def run_case(rng, ctx):
    from pyfileconf import context
    with World('c24') as w:
        net, pms = c08.build(rng, ctx, w)
        points = Points(w)
        w.plugin(Hooks(points))
        for n in net.nodes:
            ctx.log(n.full, n.item.target.kind, {k: net.src(e, [], 0) for k, e in n.exprs.items()}, n.overlay or '')
        ctx.log('reads', {k: [(m.full, q) for m, q in v] for k, v in net.reads.items()})
        for n in rng.sample(net.nodes, rng.randint(0, len(net.nodes))):
            c08.observe(net, pms, n, rng.choice(['get', 'run', 'config', 'view']), 'at the start')
        failures = []
        for step in range(rng.randint(4, 10)):
            net.ticks = 0
            before = {m.idx: net.conf(m) for m in net.nodes}
            plain = {(m.idx, k) for m in net.nodes for k, e in m.exprs.items() if single(e)}
            name, n, do, apply = operation(rng, ctx, net, pms)
            affected = {m for m in net.nodes if n in net.trans(m)} | {n}
            plain &= {(m.idx, k) for m in net.nodes for k, e in m.exprs.items() if single(e)}
            kind = rng.choice(['file', 'file', 'config', 'constructor', 'function', 'hook', None, 'any'])
            k = rng.choice([1, 1, 2, 3, 4, 6, 9, 14])
            exc = rng.choice([UserError('planted'), KeyboardInterrupt('planted'), ValueError('planted'), Other('planted'),
                              SystemExit('planted'), UserError('planted')])
            ctx.log(step, name, n.full, kind, k, type(exc).__name__)
            err = None
            if kind is None:
                do()
            else:
                fault = None
                if kind == 'file':
                    exc = rng.choice([OSError(errno.EACCES, 'planted'), OSError(errno.EIO, 'planted'), exc])

                    def action():
                        raise exc
                    fault = Faults(w.root, k, action, False)
                else:
                    points.arm(None if kind == 'any' else kind, k, exc)
                try:
                    if fault is not None:
                        with fault:
                            do()
                    else:
                        do()
                except BaseException as e:
                    if core.FIRED or isinstance(e, (MemoryError, core.Inconclusive)):
                        raise
                    err = e
                finally:
                    points.left = None
                    Faults.active = None
                fired = fault.fired if fault is not None else points.fired
                if err is not None:
                    if not fired:
                        raise err
                    chain, x = [], err
                    while x is not None and x not in chain:
                        chain.append(x)
                        x = x.__cause__ or x.__context__
                    ctx.check(exc in chain, f'{name} of {n.full} raised {err!r} instead of {exc!r} of the {kind}')
                    if kind != 'file':
                        ctx.check(err is exc, f'{name} of {n.full} raised {err!r} instead of {exc!r} of the {kind}')
                    ctx.ev('failed_operations')
                    ctx.ev({'us': 'failed_uses', 'up': 'failed_updates', 'rese': 'failed_resets', 'ref': 'failed_refreshes'}[
                        next(p for p in ('us', 'up', 'rese', 'ref') if name.startswith(p))])
                    ctx.ev('failed_by_' + (fired if kind != 'file' else 'file'))
                    failures.append((name, kind, k))
                    ctx.log('  failed', repr(err))
                    ctx.state(name, kind, min(k, 4), type(exc).__name__, len(affected))
            ctx.check(not len(list(context.stack)), f'stack after {name} of {n.full} ({err!r}): {context.stack}')
            held = {m.idx: m.held for m in net.nodes}
            reset = err is not None and rng.random() < 0.2
            apply()
            after = {m.idx: net.conf(m) for m in net.nodes}
            if err is not None:
                for m in net.nodes:
                    if held[m.idx] is None:
                        continue
                    got = c08.attrs(m, held[m.idx])
                    if m not in affected:
                        ctx.eq(got, before[m.idx], f'{name} of {n.full} failed ({err!r}): {m.full}, which does not '
                                                   f'depend on it', ev='unrelated_compared')
                        continue
                    for key, v in got.items():
                        if (m.idx, key) not in plain:
                            continue
                        ctx.check(same(v, before[m.idx].get(key)) or same(v, after[m.idx].get(key)),
                                  lambda: f'{name} of {n.full} failed ({err!r}): {key} of {m.full} is {v!r}, neither '
                                          f'{before[m.idx].get(key)!r} nor {after[m.idx].get(key)!r}',
                                  ev='between_old_and_new')
                net.ticks = 0
                if rng.random() < 0.3:
                    # fails again, elsewhere
                    points.arm(None, rng.randint(1, 4), exc)
                    try:
                        do()
                    except type(exc) as e:
                        if core.FIRED or e is not exc:
                            raise
                        ctx.ev('failed_again')
                    finally:
                        points.left = None
                if reset:
                    # Given up instead
                    ctx.ev('reset_after_failure')
                    n.persisted = {}
                    net.touch(n)
                    pms[n.mgr].reset(n.path)
                else:
                    do()
                    ctx.ev('repeated')
            why = f'{name} of {n.full}' + (f', {"reset" if reset else "repeated"} after it failed with {err!r} at {kind} {k}' if err else '')
            c08.compare_all(net, pms, before, n, why)
            for m in net.nodes:
                if m.held is None and m.loaded and rng.random() < 0.5:
                    m.held = pms[m.mgr].get(m.path)
                    ctx.eq(c08.attrs(m, m.held), net.conf(m), f'{why}: object of {m.full}')
        for n in rng.sample(net.nodes, len(net.nodes)):
            c08.observe(net, pms, n, rng.choice(['get', 'run', 'config', 'view']), 'at the end')
        c08.compare_all(net, pms, None, None, 'at the end')
        if failures:
            ctx.case_key(failures)
        ctx.sample = {'failures': failures, 'network': {n.full: c08.names(net.deps(n)) for n in net.nodes}}
