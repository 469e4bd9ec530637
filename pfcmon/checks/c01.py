"""C01: scaffolded config files are faithful to the registered signature."""
import os

from pfcmon import gen
from pfcmon.world import World

ID = 'C01'
RULE = ('Random projects (modules, signatures with positional/keyword-only/required/annotated parameters, default '
        'expressions incl. awkward strings, module constants, builtins and library attributes; nested pipeline and '
        'class dicts, re-exports and renamed imports). After load the monitor lists all files, executes each one on '
        'its own and compares names, values and annotations with the signature as Python evaluates it, then runs '
        'every unedited item and compares the recorded arguments. Non-trivial: at least one item with a parameter; '
        'distinct by the set of signatures and dict shape.')
ASSUMPTIONS = ['callables are functions or classes with their own __init__, without *args/**kwargs',
               'names used in defaults are module level assignments, imports or builtins',
               'items and sections are not named like methods of the containers that hold them']
REQUIRED = {'files_executed': 50, 'params_compared': 50, 'annotations_compared': 10, 'runs_observed': 50,
            'sections_checked': 20}
CASES = {'quick': 900, 'thorough': 12000}


def decorate(rng, pr):
    """Defaults which refer to names: module constants, imported names and builtins."""
    for mod, cs in pr.modules.items():
        consts = []
        bound = {}
        for c in cs:
            for p in c.params:
                if p.default is None or p.name in ('name', 'key_id'):
                    continue
                r = rng.random()
                if r < 0.08:
                    nm = f'CONST_{len(consts)}'
                    consts.append(f'{nm} = {p.default}')
                    p.value_src = p.default
                    p.default = rng.choice([nm, f'[{nm}]', f'({nm}, 1)'])
                elif r < 0.12:
                    p.default = rng.choice(['float("inf")', 'len', 'int', 'dict(a=1)', 'max(1, 2)', 'range(3)',
                                            'list((1, 2))'])
                elif r < 0.16:
                    imp, d = rng.choice([('import os', 'os.sep'), ('import os', 'os.path.join("a", "b")'),
                                         ('from os import sep', 'sep'), ('import math as mt', 'mt.pi'),
                                         ('from collections import OrderedDict as OD', 'OD(a=1)'),
                                         ('from decimal import Decimal', 'Decimal("1.5")'),
                                         ('from pathlib import Path, PurePath', 'Path("x") / "y"')])
                    p.default = d
                    pr.extra_imports.setdefault(mod, []).append(imp)
                elif r < 0.26:
                    p.default = combined(rng, mod, pr, consts, bound)
                if rng.random() < 0.05:
                    p.ann, imp = rng.choice(MODULE_ANNOTATIONS)
                    pr.extra_imports.setdefault(mod, []).append(imp)
        pr.constants[mod] = '\n'.join(consts)


# modules with values: (name in the module, value)
VALUES = {'vals_a': [('A', '1'), ('B', '20'), ('LST', '[3, 4, 5]'), ('TXT', '"txt"'), ('D_A', '{"k": 1, 20: "x"}')],
          'vals_b': [('C1', '7'), ('Opt', '"opt"'), ('_hidden', '9'), ('pair', '(1, 2)')],
          'vals_pkg.deep': [('Z', '50'), ('zz', '"zed"')]}
MODULE_ANNOTATIONS = [('tp.Optional[int]', 'import typing as tp'), ('decimal.Decimal', 'import decimal'),
                      ('Optional[decimal.Decimal]', 'import decimal\nfrom typing import Optional'),
                      ('List[OD]', 'from collections import OrderedDict as OD\nfrom typing import List'),
                      ('Dict[str, List[Decimal]]', 'from typing import Dict, List\nfrom decimal import Decimal'),
                      ('Callable[[int, Path], Decimal]',
                       'from typing import Callable\nfrom decimal import Decimal\nfrom pathlib import Path')]


def combined(rng, mod, pr, consts, bound):
    """A default of several names, of constants, other modules and builtins."""
    def atom():
        r = rng.random()
        if r < 0.2:
            nm = f'CONST_{len(consts)}'
            consts.append(f'{nm} = {rng.randint(0, 999)}')
            return nm
        if r < 0.3:
            return rng.choice(['3', '"s"', 'len', 'None', '-1'])
        if r < 0.4:
            m = rng.choice(['vals_a', 'vals_b'])
            pr.extra_imports.setdefault(mod, []).append(f'import {m}')
            return f'{m}.{rng.choice(VALUES[m])[0]}'
        m = rng.choice(list(VALUES))
        nm = rng.choice(VALUES[m])[0]
        as_ = nm
        if rng.random() < 0.3:
            # under another name: its own, or that of another value
            as_ = nm + '_as' if rng.random() < 0.5 else rng.choice(VALUES[rng.choice(list(VALUES))])[0]
        if bound.setdefault(as_, (m, nm)) != (m, nm):
            # that name is taken in this module
            as_ = f'{nm}_{m[-1]}_as'
        pr.extra_imports.setdefault(mod, []).append(f'from {m} import {nm}' + (f' as {as_}' if as_ != nm else ''))
        return as_
    x, y, z = atom(), atom(), atom()
    return rng.choice([f'({x}, {y})', f'[{x}, {y}, {z}]', f'{{"a": {x}, "b": [{y}]}}', f'dict(a={x}, b={y})',
                       f'{x} if {y} else {z}', f'{x} or {y}', f'{x} == {y}', f'[{x}, ({y}, {{"k": {z}}})]',
                       f'str({x}) + str({y})', f'{x} is {y}', f'list(({x}, {y}))', f'not {x}',
                       f'{x} and ({y}, {z})', f'[{x}] * 2 + [{y}]', f'dict([("a", {x})], b={y})', f'{{1: {x}}}[1]',
                       f'(1, {x}, {y})[1:]', f'[{x}, {y}][0]', f'repr({x}).upper() + str({y})', f'{{str({x}): {y}}}',
                       f'[*[{x}], {y}]', f'{{**dict(a={x}), "b": {y}}}', f'f"{{{x}}} and {{{y}!r:>5}}"' if '"' not in x + y else x,
                       f'dict(*[[]], **dict(a={x}))', f'([0] * 100)[{x}:{y}] if type({x}) is type({y}) is int else 0'])


def run_case(rng, ctx):
    import importlib
    pr = gen.project(rng, nested_list=True, ann_p=0.5)
    decorate(rng, pr)
    pr.restyle(rng)
    mname = rng.choice(['pm', 'proj', 'm'])
    with World('c01') as w:
        ctx.log(pr.pipeline_dict_src())
        for m, cs in pr.modules.items():
            ctx.log(m, [f'{c.name}({gen.sig(c.params)})' for c in cs])
        for m, vs in VALUES.items():
            w.module(m, ''.join(f'{k} = {v}\n' for k, v in vs))
        pm = pr.build(w, name=mname)
        base = os.path.join(w.folder(mname), 'defaults')
        got_files = set()
        for d, _, fs in sorted(os.walk(base)):
            got_files.update(os.path.relpath(os.path.join(d, f), base) for f in fs)
        want_files = {it.rel_file for it in pr.items.values()}
        want_files |= {s.replace('.', '/') + '/section.py' for s in pr.sections} | {'section.py'}
        ctx.check(got_files == want_files,
                  f'files scaffolded: unexpected {sorted(got_files - want_files)}, '
                  f'missing {sorted(want_files - got_files)}')
        expected = {}
        anns = {}
        for path, it in pr.items.items():
            mod = importlib.import_module(it.target.module)
            exp, an = {}, {}
            for p in it.target.params:
                exp[p.name] = None if p.default is None else eval(p.default, vars(mod))
                if p.ann is not None:
                    an[p.name] = _resolve(eval(p.ann, vars(mod)), vars(mod))
            if it.specific is not None:
                exp[it.specific['key_attr']] = it.name
            expected[path], anns[path] = exp, an
        for s in ['section.py'] + [s.replace('.', '/') + '/section.py' for s in pr.sections]:
            ns = {}
            exec(compile(w.read(os.path.join(base, s)), s, 'exec'), ns)
            ctx.check([k for k in ns if k != '__builtins__'] == [], f'{s} is not blank: {list(ns)}')
            ctx.ev('sections_checked')
        for path, it in pr.items.items():
            src = w.read(os.path.join(base, it.rel_file))
            ns = {'__name__': 'scaffolded'}
            try:
                exec(compile(src, it.rel_file, 'exec'), ns)
            except Exception as e:
                ctx.log(src)
                ctx.fail(f'scaffolded file of {path} does not execute: {type(e).__name__}: {e}')
            ctx.ev('files_executed')
            for k, v in expected[path].items():
                ctx.check(k in ns, lambda: f'{path}: parameter {k} missing in scaffolded file:\n{src}')
                ctx.eq(_n(ns[k]), _n(v), f'{path}: default of {k} in file\n{src}\n', ev='params_compared')
            got_an = {k: _resolve(v, ns) for k, v in ns.get('__annotations__', {}).items() if k in expected[path]}
            ctx.eq(got_an, anns[path], f'{path}: annotations in file\n{src}\n')
            ctx.ev('annotations_compared', len(anns[path]))
            extra = set(got_an) - set(anns[path])
            ctx.check(not extra, f'annotations on unannotated parameters {extra}')
        order = list(pr.items)
        rng.shuffle(order)
        for path in order:
            it = pr.items[path]
            n0, i0 = len(w.R.calls), len(w.R.inits)
            res = pm.run(path)
            ctx.check(len(w.R.calls) == n0 + 1, f'running {path} made {len(w.R.calls) - n0} calls')
            label, kw = w.R.calls[-1]
            ctx.eq(label, it.run_label, f'what running {path} calls')
            ctx.eq(_n(kw), _n(expected[path]), f'arguments of unedited {path}')
            ctx.check(getattr(res, 'seq', None) == w.R.seq, f'result of {path} is not what the item returned')
            if it.target.kind == 'class' and it.specific is None:
                ctx.check(len(w.R.inits) == i0 + 1, f'{path} constructed {len(w.R.inits) - i0} times')
                ctx.eq(_n(w.R.inits[-1][1]), _n(expected[path]), f'constructor arguments of {path}')
            ctx.ev('runs_observed')
        nontrivial = any(it.target.params for it in pr.items.values())
        if nontrivial:
            ctx.case_key(pr.pipeline_dict_src(), [gen.sig(c.params) for cs in pr.modules.values() for c in cs],
                         [s['tree'] for s in pr.specifics])
        ctx.state(sorted(pr.items))
        ctx.sample = {'pipeline_dict': pr.pipeline_dict_src(),
                      'signatures': [f'{c.label}({gen.sig(c.params)})' for cs in pr.modules.values() for c in cs][:8]}


def _resolve(ann, ns):
    """A quoted annotation means the same as an unquoted one."""
    return eval(ann, dict(ns)) if isinstance(ann, str) else ann


def _n(v):
    """Ranges, paths and such compare by value; keep types strict otherwise."""
    return v
