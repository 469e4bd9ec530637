"""C02: loading again preserves user edits, adds what is new, and is idempotent."""
import ast
import io
import os
import tokenize

from pfcmon import gen
from pfcmon.util import same
from pfcmon.world import World

ID = 'C02'
RULE = ('A random project is loaded, then over several simulated sessions its config files are edited (values, '
        'user imports in every form, helper assignments, annotations, comments, deleted lines, multi-line values '
        'containing import-like text), section.py and unregistered files are written, signatures gain and lose '
        'parameters and items come and go; some files are links or have other modes. A byte and namespace snapshot is taken before each load and compared '
        'after it; a further unchanged load must not change a byte. Non-trivial: at least one edited item file; '
        'distinct by the edited texts.')
ASSUMPTIONS = ['config files consist of imports, comments, expressions and single-name assignments',
               'a user edit never makes the file fail to execute']
REQUIRED = {'edited_files': 50, 'names_preserved': 100, 'stable_loads': 20, 'params_added': 5,
            'user_imports': 10, 'untouched_files': 20, 'runs_observed': 20}
CASES = {'quick': 400, 'thorough': 9000}

USER_IMPORTS = [
    ('import os', 'os.sep'), ('import os, sys', 'sys.maxsize'), ('import os.path as op', 'op.join("p", "q")'),
    ('import math', 'math.pi'), ('from math import pi', 'pi'), ('from math import pi, e', 'e'),
    ('from math import pi as PI', 'PI'), ('from math import (\n    sqrt,\n    floor\n)', 'floor(sqrt(17))'),
    ('from collections import OrderedDict as OD, Counter', 'OD(z=1)'),
    ('import json as js', 'js.dumps({"a": 1})'), ('from os import path', 'path.join("a", "b")'),
    ('from typing import List, Optional', None), ('from datetime import date', 'date(2020, 1, 2)'),
    ('from decimal import Decimal as D', 'D("2.5")'), ('import string as st, textwrap', 'st.digits'),
    ('from itertools import chain, \\\n    repeat', 'list(chain([1], repeat(2, 2)))'),
    ('from math import (  # several\n    sqrt as root,  # the root\n    # and\n    ceil\n)  # of it', 'ceil(root(17))'),
    ('from math import tau, tau as TAU', '(tau, TAU)'), ('from math import inf as inf1, inf as inf2', '(inf1, inf2)'),
    ('import stat, stat as stat2', '(stat.S_IFREG, stat2.S_IFDIR)'), ('from math import exp as floor_, floor as exp_', 'floor_(exp_(2.5))'),
]
MULTI = [
    '{\n    "a": 1,\n    "b": [\n        1,\n        2,\n    ],\n}', '"""text\nimport nothing\nfrom x import y\nz = 3\n"""',
    '(\n    1 +\n    2\n)', '[\n    # comment inside\n    "x=1",\n    "y",\n]', '"part one " \\\n    "part two"',
    'dict(\n    a=1,\n    b="=",\n)', "'''\n'''",
]


def edit_file(rng, ctx, text, params, key_attr=None):
    """A user edited version of a config file. Returns new text."""
    tree = ast.parse(text)
    lines = text.split('\n')
    imports, body = [], []
    for node in tree.body:
        seg = '\n'.join(lines[node.lineno - 1:node.end_lineno])
        if isinstance(node, (ast.Import, ast.ImportFrom)):
            imports.append(seg)
        else:
            nm = None
            if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
                nm = node.targets[0].id
            elif isinstance(node, ast.AnnAssign):
                nm = node.target.id
            body.append((nm, seg, node))
    exprs = []
    new_imports = []
    for imp, use in rng.sample(USER_IMPORTS, rng.choice([0, 0, 1, 1, 2, 3])):
        new_imports.append(imp)
        if use:
            exprs.append(use)
        ctx.ev('user_imports')
    for imp in new_imports:
        imports.insert(rng.randint(0, len(imports)), imp)
    if rng.random() < 0.4:
        for i in range(rng.randint(1, 3)):
            c = rng.choice(['#', '# comment', '#!comment', '# import os', '#: x = 5', '# from a import (', '##', '#caf\u00e9'])
            if rng.random() < 0.6:
                imports.insert(rng.randint(0, len(imports)), c)
            else:
                k = rng.randrange(len(imports))
                if '\n' not in imports[k] and '#' not in imports[k]:
                    imports[k] += f'  {c} {i}'
        ctx.ev('comments_among_imports')
    out = []
    helpers = []
    for nm, seg, node in body:
        if rng.random() < 0.2:
            out.append(rng.choice(['# user comment', '', '# x = 5', '# import os', '#']))
        if rng.random() < 0.15:
            h = f'helper_{len(helpers)}'
            v = rng.choice(exprs) if exprs and rng.random() < 0.4 else (
                rng.choice(MULTI) if rng.random() < 0.4 else gen.expr(rng))
            ann = rng.choice(['', '', ': int', ': str']) if rng.random() < 0.5 else ''
            out.append(f'{h}{ann} = {v}')
            helpers.append(h)
        if nm in params and nm != key_attr:
            r = rng.random()
            if r < 0.1:
                continue        # deleted by the user
            if r < 0.65:
                q = rng.random()
                if exprs and q < 0.25:
                    v = rng.choice(exprs)
                elif helpers and q < 0.4:
                    v = rng.choice([helpers[-1], f'[{helpers[-1]}]', f'({helpers[0]}, 1)'])
                elif q < 0.55:
                    v = rng.choice(MULTI)
                else:
                    v = gen.expr(rng)
                ann = ''
                if isinstance(node, ast.AnnAssign) and rng.random() < 0.7:
                    ann = ': ' + ast.get_source_segment(text, node.annotation)
                elif rng.random() < 0.2:
                    ann = ': ' + rng.choice(['int', 'str', 'dict'])
                sp = rng.choice([' = ', ' = ', '=', '  =  '])
                tail = rng.choice(['', '', '', '  # why', '  # a = 2'])
                if '\n' in v:
                    tail = ''
                out.append(f'{nm}{ann}{sp}{v}{tail}')
                continue
        out.append(seg)
    if rng.random() < 0.1:
        out.append(rng.choice(['"a string statement"', 'helper_z = "last"']))
    head = rng.choice(['', '', '', '# header comment\n', '"""Docstring of the file."""\n', '\n\n'])
    sep = rng.choice(['\n', '\n\n', '\n\n\n', ''])
    return head + '\n'.join(imports) + '\n' + sep + '\n'.join(out) + rng.choice(['\n', '', '\n\n'])


def execute(text, name):
    ns = {'__name__': 'edited'}
    exec(compile(text, name, 'exec'), ns)
    anns = ns.pop('__annotations__', {})
    ns.pop('__builtins__', None)
    ns.pop('__name__', None)
    ns.pop('__doc__', None)
    return ns, anns


def mutate_signatures(rng, ctx, pr):
    """New parameters appear, old ones disappear, in the source of the modules."""
    added = {}
    for cs in pr.modules.values():
        for c in cs:
            if rng.random() < 0.35:
                have = {p.name for p in c.params}
                new = gen.Param(rng.choice(['newp', 'extra', 'zz']), gen.expr(rng),
                                rng.choice([None, None, 'int', 'Optional[int]']))
                if new.name in have:
                    continue
                new.ann_import = 'from typing import Optional' if new.ann and 'Opt' in new.ann else None
                pos = [i for i, p in enumerate(c.params) if p.kwonly]
                c.params.insert(pos[0] if pos else len(c.params), new)
                added.setdefault(c.label, set()).add(new.name)
            elif rng.random() < 0.15:
                c.params = [p for p in c.params if p.default is None or p.name in ('name', 'key_id')
                            or rng.random() < 0.6]
    return added


def run_case(rng, ctx):
    pr = gen.project(rng, nested_list=rng.random() < 0.4, n_modules=2, max_sections=2)
    sessions = rng.randint(1, 3)
    with World('c02') as w:
        pm = pr.build(w, name='pm')
        base = os.path.join(w.folder('pm'), 'defaults')
        sample = None
        for si in range(sessions):
            # -- user edits ----------------------------------------------------
            added = mutate_signatures(rng, ctx, pr) if rng.random() < 0.7 else {}
            if rng.random() < 0.3 and len(pr.tree) > 1:
                pr.tree.pop(rng.choice(list(pr.tree)))
            if rng.random() < 0.4:
                sec = rng.choice(['newsec', 'sec', 'zzz'])
                if sec not in pr.tree:
                    allc = [c for m, cs in pr.modules.items() for c in cs if not m.startswith('sm')]
                    pr.tree[sec] = [rng.choice(allc)]
            for s in pr.specifics:
                if rng.random() < 0.3:
                    s['tree'].setdefault('s_new', []).append(f'item{si}{len(s["tree"]["s_new"])}')
            old_items = dict(pr.items)
            pr.index()
            before = {}
            for d, _, fs in sorted(os.walk(base)):
                for f in sorted(fs):
                    rel = os.path.relpath(os.path.join(d, f), base)
                    text = w.read(os.path.join(base, rel))
                    if os.path.basename(rel) == 'section.py':
                        if rng.random() < 0.3:
                            text = rng.choice(['a = 1\n', '# nothing\n\n\nimport os\nb = os.sep', 'x=1', '',
                                               'from math import pi\n\n\n\ndata = pi'])
                            w.write(os.path.join(base, rel), text)
                    before[rel] = text
            for rel in rng.sample(['orphan.py', 'nodir/orphan.py', 'notes.txt', 'nodir/deep/o2.py', '_x/y.py'], 2):
                before[rel] = rng.choice(['a=1', 'import os\nq = os.sep\n', '\n\n\nz=5'])
                w.write(os.path.join(base, rel), before[rel])
            edited = {}
            with_managers = [(p, it) for p, it in pr.items.items() if it.rel_file in before]
            for path, it in with_managers:
                if rng.random() < 0.75:
                    names = {p.name for p in it.target.params}
                    key = it.specific['key_attr'] if it.specific else None
                    new = edit_file(rng, ctx, before[it.rel_file], names, key)
                    edited[path] = new
                    before[it.rel_file] = new
                    w.write(os.path.join(base, it.rel_file), new)
                    ctx.ev('edited_files')
                    sample = new
            modes, links = {}, {}
            for path, it in with_managers:
                f = os.path.join(base, it.rel_file)
                if rng.random() < 0.15:
                    os.chmod(f, rng.choice([0o600, 0o640, 0o664, 0o755, 0o666]))
                if rng.random() < 0.1 and not os.path.islink(f):
                    target = os.path.join(w.root, 'shared', f'{si}_{len(links)}.py')
                    os.makedirs(os.path.dirname(target), exist_ok=True)
                    os.rename(f, target)
                    os.symlink(target if rng.random() < 0.5 else os.path.relpath(target, os.path.dirname(f)), f)
                modes[f] = os.stat(f).st_mode
                if os.path.islink(f):
                    links[f] = os.path.realpath(f)
            nss = {}
            for path, it in with_managers:
                try:
                    nss[path] = execute(before[it.rel_file], path)
                except Exception as e:
                    ctx.log(before[it.rel_file])
                    raise RuntimeError(f'harness: user edit does not execute {e}')
            # -- load in a new session -----------------------------------------
            w.new_session()
            pd_text, cds = pr.pipeline_dict_src(), [(s['name'], pr.spec_src(s)) for s in pr.specifics]
            pm = pr.build(w, name='pm')
            ctx.check(w.read(os.path.join(w.folder('pm'), 'pipeline_dict.py')) == pd_text,
                      'load changed pipeline_dict.py')
            for nm, t in cds:
                ctx.check(w.read(os.path.join(w.folder('pm'), f'{nm}_dict.py')) == t, f'load changed {nm}_dict.py')
            files = {it.rel_file for it in pr.items.values()}
            expected = {}
            import importlib
            for path, it in pr.items.items():
                mod = importlib.import_module(it.target.module)
                expected[path] = {p.name: (None if p.default is None else eval(p.default, vars(mod)))
                                  for p in it.target.params}
                if it.specific is not None:
                    expected[path][it.specific['key_attr']] = it.name
            for path, it in with_managers:
                text = w.read(os.path.join(base, it.rel_file))
                try:
                    ns, an = execute(text, path)
                except Exception as e:
                    ctx.log('--- before'), ctx.log(before[it.rel_file]), ctx.log('--- after'), ctx.log(text)
                    ctx.fail(f'session {si}: {it.rel_file} no longer executes after load: {type(e).__name__} {e}')
                ns0, an0 = nss[path]
                for k, v in ns0.items():
                    if k == 's':
                        ctx.check('s' in ns, 'name s lost')
                        continue
                    if not (k in ns and same(ns[k], v)):
                        ctx.log('--- before'), ctx.log(before[it.rel_file]), ctx.log('--- after'), ctx.log(text)
                    ctx.check(k in ns, f'session {si}: {it.rel_file}: user name {k} lost by loading')
                    ctx.eq(ns[k], v, f'session {si}: {it.rel_file}: value of {k} after loading', ev='names_preserved')
                for k, v in an0.items():
                    ctx.check(k in an and same(an[k], v),
                              f'session {si}: {it.rel_file}: annotation of {k} lost or changed by loading: '
                              f'{v} -> {an.get(k)}\n{text}')
                for cm in [l for l in _body_lines(before[it.rel_file]) if l.strip().startswith('#')]:
                    if cm not in text.split('\n'):
                        ctx.log('--- before'), ctx.log(before[it.rel_file]), ctx.log('--- after'), ctx.log(text)
                    ctx.check(cm in text.split('\n'), f'session {si}: {it.rel_file}: comment {cm!r} lost')
                was, now = comments(before[it.rel_file]), comments(text)
                lost = [c for c in set(was) if ' '.join(now).count(c) < ' '.join(was).count(c)]
                if lost:
                    ctx.log('--- before'), ctx.log(before[it.rel_file]), ctx.log('--- after'), ctx.log(text)
                ctx.check(not lost, f'session {si}: {it.rel_file}: comments lost: {lost}', ev='comments_compared')
                for p in it.target.params:
                    if p.name not in ns0:
                        ctx.check(p.name in ns, f'{it.rel_file}: new parameter {p.name} was not added\n{text}')
                        ctx.eq(ns[p.name], expected[path][p.name], f'{it.rel_file}: value of added {p.name}')
                        ctx.ev('params_added')
                    else:
                        expected[path][p.name] = ns0[p.name]
            for rel, text in before.items():
                if rel not in files:
                    ctx.check(w.read(os.path.join(base, rel)) == text, f'load changed {rel}')
                    ctx.ev('untouched_files')
            for f, mode in modes.items():
                ctx.check(os.stat(f).st_mode == mode, f'{f}: mode {mode:o} became {os.stat(f).st_mode:o} by loading',
                          ev='modes_compared')
            for f, target in links.items():
                ctx.check(os.path.islink(f) and os.path.realpath(f) == target, f'{f} no longer links to {target}',
                          ev='links_compared')
            for path, it in pr.items.items():
                ctx.check(os.path.exists(os.path.join(base, it.rel_file)), f'no config file for {path}')
            snap = {it.rel_file: w.read(os.path.join(base, it.rel_file)) for it in pr.items.values()}
            # -- what actually runs ---------------------------------------------
            secs = _section_free(w, base, pr)
            for path in rng.sample(list(pr.items), min(4, len(pr.items))):
                if path not in secs:
                    continue
                it = pr.items[path]
                pm.run(path)
                label, kw = w.R.calls[-1]
                ctx.eq(kw, expected[path], f'session {si}: arguments of {path} (edited file)\n{snap[it.rel_file]}')
                ctx.ev('runs_observed')
            # -- idempotence -----------------------------------------------------
            for again in range(rng.randint(1, 2)):
                if rng.random() < 0.5:
                    w.new_session()
                    pm = pr.build(w, name='pm')
                else:
                    pm.reload()
                after2 = {r: w.read(os.path.join(base, r)) for r in snap}
                if again == 0 and si == 0:
                    pass
                for r in snap:
                    if after2[r] != snap[r]:
                        # the first rewrite may normalise blank lines around the imports; the next must not
                        ctx.check(_norm(after2[r]) == _norm(snap[r]),
                                  f'unchanged load rewrote {r}:\n--- before\n{snap[r]}\n--- after\n{after2[r]}')
                        ctx.ev('normalised')
                snap = after2
                pm.reload()
                for r in snap:
                    t = w.read(os.path.join(base, r))
                    ctx.check(t == snap[r], f'unchanged load rewrote {r}:\n--- before\n{snap[r]!r}\n--- after\n{t!r}')
                ctx.ev('stable_loads')
        if sample is not None:
            ctx.case_key(sorted(snap.items()))
        ctx.state(sorted(snap.items()))
        ctx.sample = {'edited_file': sample}


def _norm(t):
    return [l for l in t.split('\n') if l.strip()]


def comments(text):
    return [t.string for t in tokenize.generate_tokens(io.StringIO(text).readline) if t.type == tokenize.COMMENT]


def _body_lines(text):
    """Lines below the last import, without those inside multi-line strings or values."""
    tree = ast.parse(text)
    imp = 0
    inside = set()
    for n in tree.body:
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            imp = n.end_lineno
        elif n.end_lineno > n.lineno:
            inside.update(range(n.lineno, n.end_lineno + 1))
    return [l for i, l in enumerate(text.split('\n'), 1) if i > imp and i not in inside]


def _section_free(w, base, pr):
    """Items for which no section.py on the path defines anything."""
    out = set()
    for path in pr.items:
        parts = path.split('.')[:-1]
        ok = True
        for i in range(len(parts) + 1):
            f = os.path.join(base, *parts[:i], 'section.py')
            if os.path.exists(f) and execute(w.read(f), f)[0]:
                ok = False
        if ok:
            out.add(path)
    return out
