"""C18: section paths form an algebra consistent with file paths."""
import os
import pickle
import sys
import types
import unittest.mock
from copy import deepcopy

from pfcmon import gen
from pfcmon.world import World

ID = 'C18'
RULE = ('Random section names (prefixes and suffixes of each other, names made of or ending in py, unicode, long) give '
        'random paths, base folders and operations; lists of names are the reference the observed results of strings, '
        'lists, file paths, join, endswith, equality and hashing are compared with, and inputs are compared with what '
        'they were before. In random projects every file on disk, every registered item and every Selector item is '
        'converted in every way, with base and manager stripping, and a monitor on SectionPath checks every path which '
        'the library itself creates while the project is loaded, updated in batches, run and reset. Distinct by names.')
ASSUMPTIONS = ['sections are non-empty names without dots or path separators', 'file paths lie within the base folder',
               'POSIX file paths']
REQUIRED = {'paths': 20000, 'joins': 5000, 'associations': 5000, 'endswith_true': 3000, 'endswith_false': 5000,
            'endswith_partial_name': 1000, 'file_round_trips': 10000, 'relative_bases': 1000, 'equal_pairs': 2000,
            'unequal_pairs': 5000, 'refused': 3000, 'ambiguous': 10000, 'lists': 3000, 'view_conversions': 1000,
            'views_stripped': 300, 'project_files': 1000, 'internal_paths': 10000, 'inputs_unchanged': 10000}
CASES = {'quick': 1600, 'thorough': 30000}

NAMES = ['a', 'b', 'ab', 'ba', 'aa', 'py', 'pyx', 'x_py', 'happy', 'copy', 'main', 'section', 'defaults', 'sec', 'sec2',
         'secs', 'se', 'c', '_', '__x', 'A', 'B', 'caf\u00e9', '\u03bb', 'n0', 'n' * 60, 'pipeline_dict', 'spy', 'p', 'y']
PAIRS = [('py', 'spy'), ('sec', 'secs'), ('a', 'ba'), ('a', 'ab'), ('b', 'ab'), ('y', 'py'), ('copy', 'y'), ('A', 'a')]


class Text(str):
    pass


class Lookalike:
    path_str = 'a.b'
    sections = ['a', 'b']
    section_path_str = 'a.b'
    _section_path_str = 'a.b'


def names(rng, lo=1, hi=6):
    pool = NAMES if rng.random() < 0.5 else rng.sample(NAMES, 3)
    return [rng.choice(pool) for _ in range(rng.randint(lo, hi))]


def junk(rng, w=None):
    import numpy as np
    pool = [None, 1, 0, 1.5, True, False, b'a.b', {'a': 1}, {}, {'a.b'}, object(), int, len, lambda: 'a', types,
            Lookalike(), unittest.mock.MagicMock(), np.array([1, 2]), ('a', 'b'), ['a.b'], [], (), iter(['a'])]
    return rng.choice(pool)


class Internal:
    """Online monitor: every SectionPath made while it is active agrees with itself."""

    def __init__(self, ctx, cls):
        self.ctx, self.cls = ctx, cls
        self.bad = []

    def __enter__(self):
        mon, orig = self, self.cls.__init__
        self.orig = orig

        def __init__(obj, *a, **kw):
            orig(obj, *a, **kw)
            mon.ctx.ev('internal_paths')
            if list(obj) != obj.path_str.split('.') or len(obj) != len(list(obj)):
                mon.bad.append((obj.path_str, list(obj)))

        self.cls.__init__ = __init__
        return self

    def __exit__(self, *a):
        self.cls.__init__ = self.orig
        if a[0] is None:
            self.ctx.check(not self.bad, f'paths whose sections are not those of their string: {self.bad[:3]}')
        return False


def make(rng, SP, ns):
    """The same path in one of the ways to write it."""
    k = rng.randrange(6)
    if k == 0:
        return SP.from_section_str_list(list(ns))
    if k == 1:
        return SP.from_ambiguous('.'.join(ns))
    if k == 2 and len(ns) > 1:
        c = rng.randint(1, len(ns) - 1)
        return SP.join('.'.join(ns[:c]), SP('.'.join(ns[c:])))
    if k == 3:
        return SP.from_filepath('/base', '/base/' + '/'.join(ns) + rng.choice(['', '.py']))
    if k == 4:
        return deepcopy(SP('.'.join(ns)))
    return SP('.'.join(ns))


def same_path(ctx, sp, ns, what):
    ctx.ev('paths')
    ctx.eq(''.join(sp.path_str), '.'.join(ns), f'{what}: path_str')
    ctx.eq([''.join(x) for x in sp], list(ns), f'{what}: iterated sections')
    ctx.eq(list(sp.sections), list(ns), f'{what}: sections')
    ctx.eq(len(sp), len(ns), f'{what}: len')
    ctx.eq(sp[0], ns[0], f'{what}: first section')
    ctx.eq(sp[-1], ns[-1], f'{what}: last section')
    ctx.eq(list(sp[1:]), list(ns[1:]), f'{what}: sections but the first')


def unchanged(ctx, sp, ns, what):
    ctx.ev('inputs_unchanged')
    ctx.check(sp.path_str == '.'.join(ns) and list(sp.sections) == list(ns), f'{what} changed its input: {sp.path_str} '
              f'{sp.sections} was {ns}')


def algebra(rng, ctx, SP):
    ns1, ns2, ns3 = names(rng), names(rng), names(rng)
    a, b, c = make(rng, SP, ns1), make(rng, SP, ns2), make(rng, SP, ns3)
    for sp, ns in ((a, ns1), (b, ns2), (c, ns3)):
        same_path(ctx, sp, ns, 'path')
    ctx.case_key(ns1, ns2, ns3)
    ctx.state((len(ns1), len(ns2), len(ns3), ns1[0], ns3[-1]))
    # join
    one = rng.choice([a, a.path_str])
    two = rng.choice([b, b.path_str])
    ab = SP.join(one, two)
    ctx.ev('joins')
    same_path(ctx, ab, ns1 + ns2, 'join')
    ctx.ev('associations')
    left, right = SP.join(SP.join(a, b), c), SP.join(a, SP.join(b, c))
    same_path(ctx, left, ns1 + ns2 + ns3, 'join of join')
    ctx.check(left == right and hash(left) == hash(right), 'join is not associative')
    same = SP.join(a, a)
    same_path(ctx, same, ns1 + ns1, 'join with itself')
    for sp, ns in ((a, ns1), (b, ns2), (c, ns3), (ab, ns1 + ns2)):
        unchanged(ctx, sp, ns, 'join')
    # join is independent of its operands
    lst = list(ns1)
    fl = SP.from_section_str_list(lst)
    lst.append('later')
    unchanged(ctx, fl, ns1, 'changing the list of sections afterwards')
    # endswith
    whole = ns1 + ns2
    sp = SP.join(a, b)
    for i in range(len(whole)):
        ctx.ev('endswith_true')
        ctx.check(sp.endswith(make(rng, SP, whole[i:])) is True, f'{sp.path_str} does not end with {whole[i:]}')
    cands = [names(rng) for _ in range(3)]
    cands.append(whole + names(rng, 1, 2))
    cands.append(names(rng, 1, 2) + whole)
    cands.append(whole[:-1])
    cands.append(ns1)
    changed = list(whole[-rng.randint(1, len(whole)):])
    changed[rng.randrange(len(changed))] = rng.choice(NAMES)
    cands.append(changed)
    for x, y in PAIRS:
        if whole[-1] in (x, y):
            cands.append(whole[rng.randrange(len(whole)):-1] + [y if whole[-1] == x else x])
            ctx.ev('endswith_partial_name')
    part = whole[-1][rng.randrange(len(whole[-1])):]
    cands.append([part])
    ctx.ev('endswith_partial_name')
    for ns in cands:
        if not ns:
            continue
        want = whole[len(whole) - len(ns):] == ns if len(ns) <= len(whole) else False
        ctx.ev('endswith_true' if want else 'endswith_false')
        suf = make(rng, SP, ns)
        ctx.check(bool(sp.endswith(suf)) is want, f'{sp.path_str}.endswith({ns}) is not {want}')
        unchanged(ctx, suf, ns, 'endswith')
    unchanged(ctx, sp, whole, 'endswith')
    # equality and hash
    pool = [ns1, ns2, ns3, whole, whole[:-1] or ns1, cands[0]]
    paths = [(make(rng, SP, ns), ns) for ns in pool + [rng.choice(pool)]]
    for p, ns in paths:
        for q, ms in paths:
            eq = ns == ms
            ctx.ev('equal_pairs' if eq else 'unequal_pairs')
            ctx.check((p == q) is eq and (p != q) is (not eq), f'{ns} == {ms} is not {eq}')
            if eq:
                ctx.check(hash(p) == hash(q), f'equal paths {ns} hash differently')
    ctx.eq(len({p for p, _ in paths}), len({tuple(ns) for _, ns in paths}), 'number of distinct paths in a set')
    d = {p: ns for p, ns in paths}
    for p, ns in paths:
        ctx.eq(d[make(rng, SP, ns)], ns, 'look up by an equal path')
    for other in (None, 5, '.'.join(ns1), ns1, object()):
        ctx.check((a == other) is False and (a != other) is True, f'a path equals {other!r}')
    same_path(ctx, pickle.loads(pickle.dumps(a)), ns1, 'pickled path')


def files(rng, ctx, SP):
    ns = names(rng)
    sp = make(rng, SP, ns)
    absbase = '/' + '/'.join(rng.choice(['p', 'proj', 'a', 'py', 'x.py', 'with space', 'dots.in.it', 'caf\u00e9'])
                             for _ in range(rng.randint(0, 3)))
    k = rng.randrange(6)
    base = absbase
    if k == 1:
        base = absbase.rstrip('/') + '/'
    elif k == 2:
        base = absbase.rstrip('/') + '/.'
    elif k == 3:
        base = absbase.rstrip('/') + '/zz/..'
    elif k >= 4:
        base = rng.choice(['proj', './proj', 'proj/inner/', '.', '..', '../other', 'x.py'])
        ctx.ev('relative_bases')
    fp = sp.to_filepath(base)
    want = os.path.normpath(os.path.join(base, *ns))
    ctx.eq(os.path.normpath(fp), want, f'to_filepath({base!r})')
    unchanged(ctx, sp, ns, 'to_filepath')
    for f in (fp, fp + '.py', os.path.normpath(fp) + '.py', os.path.abspath(fp) + '.py'):
        b = rng.choice([base, os.path.abspath(base), os.path.normpath(base)])
        ctx.ev('file_round_trips')
        same_path(ctx, SP.from_filepath(b, f), ns, f'from_filepath({b!r}, {f!r})')
    # distinct paths have distinct files, and a path within a path has its file within
    ms = names(rng)
    other = make(rng, SP, ms).to_filepath(base)
    ctx.check((os.path.normpath(other) == os.path.normpath(fp)) is (ns == ms), f'files of {ns} and {ms}')
    j = SP.join(sp, SP('.'.join(ms)))
    ctx.eq(os.path.normpath(j.to_filepath(base)), os.path.normpath(SP('.'.join(ms)).to_filepath(fp)),
           'file of a joined path')
    same_path(ctx, SP.from_filepath(fp, j.to_filepath(base) + '.py'), ms, 'file relative to the file of a section')


def raises(ctx, f, what):
    ctx.ev('refused')
    try:
        got = f()
    except ValueError:
        return
    except Exception as e:
        return ctx.fail(f'{what} raised {type(e).__name__}: {e} instead of ValueError')
    ctx.fail(f'{what} gave {got!r} instead of raising')


def ambiguous(rng, ctx, SP, views=()):
    """views: (view, full path names)"""
    def one():
        if views and rng.random() < 0.5:
            v, ns = rng.choice(views)
            return v, list(ns), True
        ns = names(rng)
        k = rng.randrange(3)
        return ('.'.join(ns) if k == 0 else make(rng, SP, ns) if k == 1 else Text('.'.join(ns))), ns, False

    def expect(ns, is_view, base, strip):
        return (base or []) + (ns[1:] if is_view and strip else ns)

    for _ in range(3):
        item, ns, is_view = one()
        base = names(rng, 1, 3) if rng.random() < 0.5 else None
        strip = rng.random() < 0.5
        kw = {}
        if base is not None:
            kw['base_section_path_str'] = '.'.join(base)
        if strip or rng.random() < 0.3:
            kw['strip_manager_from_iv'] = strip
        ctx.ev('ambiguous')
        if is_view:
            ctx.ev('view_conversions')
            if strip:
                ctx.ev('views_stripped')
        got = SP.from_ambiguous(item, **kw)
        ctx.check(isinstance(got, SP), 'from_ambiguous gave no SectionPath')
        same_path(ctx, got, expect(ns, is_view, base, strip), f'from_ambiguous({item if not is_view else ns!r}, {kw})')
        if isinstance(item, SP):
            unchanged(ctx, item, ns, 'from_ambiguous')
        # lists
        many = [one() for _ in range(rng.randint(0, 4))]
        seq = [m[0] for m in many]
        seq = tuple(seq) if rng.random() < 0.3 else seq
        got = SP.list_from_ambiguous(seq, **kw)
        ctx.ev('lists')
        ctx.check(isinstance(got, list) and len(got) == len(many), f'list_from_ambiguous gave {got}')
        for g, (_, ms, iv) in zip(got, many):
            same_path(ctx, g, expect(ms, iv, base, strip), 'list_from_ambiguous')
        got = SP.list_from_ambiguous(item, **kw)
        ctx.check(isinstance(got, list) and len(got) == 1, f'list_from_ambiguous of one item gave {got}')
        same_path(ctx, got[0], expect(ns, is_view, base, strip), 'list_from_ambiguous of one item')
        # anything else
        bad = junk(rng)
        raises(ctx, lambda: SP.from_ambiguous(bad, **kw), f'from_ambiguous({bad!r})')
        if not isinstance(bad, (list, tuple)):
            raises(ctx, lambda: SP.list_from_ambiguous([item, bad], **kw), f'list_from_ambiguous([..., {bad!r}])')
            raises(ctx, lambda: SP.list_from_ambiguous(bad, **kw), f'list_from_ambiguous({bad!r})')
        raises(ctx, lambda: SP.join(item if not is_view else 'a', bad), f'join(..., {bad!r})')
        raises(ctx, lambda: SP.join(bad, 'a'), f'join({bad!r}, ...)')


def project(rng, ctx, SP):
    from pyfileconf import Selector, context
    from pyfileconf.batch import BatchUpdater
    from pyfileconf.iterate import IterativeRunner
    with World('c18') as w:
        pr = gen.project(rng, nested_list=rng.random() < 0.4, simple=True)
        name = rng.choice(['pm', 'py', 'copy', 'mgr_py', 'a'])
        folder_name = rng.choice(['defaults', 'defaults', 'py', 'conf'])
        with Internal(ctx, SP):
            pm = pr.build(w, name, default_config_folder_name=folder_name)
        base = os.path.join(w.folder(name), folder_name)
        bases = [base, base + '/', os.path.relpath(base), './' + os.path.relpath(base)]
        on_disk = set()
        for d, _, fs in sorted(os.walk(base)):
            for f in sorted(fs):
                if f.endswith('.py'):
                    ctx.ev('project_files')
                    on_disk.add(SP.from_filepath(rng.choice(bases), os.path.join(d, f)).path_str)
        for p in pr.items:
            ctx.check(p in on_disk, f'no config file converts to {p}')
            f = SP(p).to_filepath(rng.choice(bases)) + '.py'
            ctx.check(os.path.isfile(f), f'no file {f} for {p}')
            ctx.ev('project_files')
        extra = {p for p in on_disk - set(pr.items) if not p.split('.')[-1] == 'section'}
        ctx.check(not extra, f'config files convert to paths which are not registered: {extra}')
        s = Selector()
        views = []
        for p in pr.items:
            v = s
            for part in [name] + p.split('.'):
                v = getattr(v, part)
            views.append((v, [name] + p.split('.')))
        n_calls = len(w.R.inits) + len(w.R.calls)
        for _ in range(4):
            ambiguous(rng, ctx, SP, views)
        ctx.eq(len(w.R.inits) + len(w.R.calls), n_calls, 'calls and constructions by converting Selector items')
        raises(ctx, lambda: SP.from_ambiguous(pm), 'from_ambiguous(manager)')
        raises(ctx, lambda: SP.from_ambiguous(s), 'from_ambiguous(Selector)')
        v, ns = rng.choice(views)
        real = pm.get('.'.join(ns[1:]))
        raises(ctx, lambda: SP.from_ambiguous(real), 'from_ambiguous(the real item)')
        # dependencies are recorded under the same path for each way to give it
        forms = lambda v, ns: rng.choice([v, '.'.join(ns), SP('.'.join(ns))])
        (v1, n1), (v2, n2) = rng.choice(views), rng.choice(views)
        context.config_dependencies.clear()
        context.add_config_dependency(forms(v1, n1), forms(v2, n2))
        context.add_config_dependency(forms(v1, n1), forms(v2, n2))
        got = {k: {d.path_str for d in ds} for k, ds in context.config_dependencies.items() if ds}
        ctx.eq(got, {} if n1 == n2 else {'.'.join(n2): {'.'.join(n1)}}, 'recorded dependencies')
        if n1 != n2:
            ctx.eq(len(context.config_dependencies['.'.join(n2)]), 1, 'recorded dependents')
        context.config_dependencies.clear()
        # the library's own use of paths
        with Internal(ctx, SP):
            for _ in range(3):
                v, ns = rng.choice(views)
                path = '.'.join(ns[1:])
                ps = [p.name for p in pr.items[path].target.params if p.name not in ('name', 'key_id')]
                if not ps:
                    continue
                k = rng.choice(ps)
                val = object()
                strip, how = rng.random() < 0.5, rng.randrange(3)
                # (section path to give, arguments of the updater)
                if how == 0:
                    give, kw = forms(v, ns), {}
                elif how == 1:
                    give, kw = rng.choice([path, SP(path)]), {'base_section_path_str': name}
                else:
                    give, kw = v, {'base_section_path_str': name, 'strip_manager_from_iv': True}
                BatchUpdater(**kw).update([{'section_path_str': give, k: val}])
                ctx.check(pm.config.get(path)[k] is val, f'batch update of {ns} through {type(give).__name__} {kw} is not seen')
                BatchUpdater(**kw).reset([give])
                ctx.check(pm.config.get(path)[k] is not val, f'batch reset of {ns} through {type(give).__name__} {kw} has no effect')
                val2 = f'v{rng.random()}'
                w.R.calls.clear()
                IterativeRunner(give, [{'section_path_str': path if kw else '.'.join(ns), k: val2}], **kw).run()
                ctx.check(len(w.R.calls) == 1 and w.R.calls[0][1][k] == val2,
                          f'iterative run of {ns} through {type(give).__name__} {kw}')
            pm.reload()


def run_case(rng, ctx):
    from pyfileconf.sectionpath.sectionpath import SectionPath as SP
    for _ in range(6):
        algebra(rng, ctx, SP)
        files(rng, ctx, SP)
        ambiguous(rng, ctx, SP)
    if rng.random() < 0.25:
        project(rng, ctx, SP)
