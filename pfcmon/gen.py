"""Random py-file-conf projects: modules of functions/classes, nested dicts, class dicts."""

STRINGS = [
    'a=b', 'import os', "it's", '"quoted"', 'x # not a comment', '', 'from x import y',
    'tab\there', 'caf\u00e9 \u2603', '{}', '%s %d', 'back\\slash', 'two\nlines', ' lead', 'trail ',
    'None', '1', 'def f(): pass', 'key: value', "mix ' and \" both", 'a' * 30, 'section.path.str',
    'class_dict = {}', '=', '==', "'", '"', 'r\rcarriage',
    # those which are written over several lines
    'first line   \n\nsecond line   \nthird', 'select *\n  from a_table  \nimport os\nx = 5\n\n\n  where a = 1',
    'a """ quoted\ntext with \'\'\' both in it\n' + 'and more ' * 9, 'word ' * 40, 'x' * 130, ' \n' * 12,
    'ends with a backslash\\\nand goes on, long enough to be written over more than a line\\\n', 'tabs\t\n\tand\n' * 8,
    'from x import (\n    y,\n    z\n)\n' * 3, 'caf\u00e9 \u2603\n' * 10, '# no comment\n\n# of the file\n' * 4,
]


def scalar(rng):
    k = rng.randrange(10)
    if k == 0:
        return str(rng.randint(-1000, 1000))
    if k == 1:
        return repr(rng.choice(STRINGS))
    if k == 2:
        return repr(rng.choice([0.5, -2.25, 1e10, 1e-7, 3.0, 123.456]))
    if k == 3:
        return rng.choice(['None', 'True', 'False'])
    if k == 4:
        return repr(rng.choice([b'bytes', b'', b'\x00\xff']))
    if k == 5:
        return rng.choice(['1 + 2', '2 ** 10', '10 - 3 * 2', '-(4)', '"a" + "b"', '[1, 2][0]', 'not True',
                           '(1 < 2)', '1 if True else 2', '7 // 2', 'len("abc")', 'int("5")', '~5', '1 | 6',
                           '(1 + 2) * 3', '2 ** (1 + 1)', '(1, 2) + (3,)', 'str(5)'])
    if k == 6:
        return repr('s' + str(rng.randrange(10 ** 6)))
    if k == 7:
        return repr(complex(rng.randint(0, 3), rng.randint(1, 3)))
    if k == 8:
        return repr(rng.choice(STRINGS) + rng.choice(STRINGS))
    return str(rng.randint(0, 10 ** 12))


def expr(rng, depth=0):
    """Source of a self contained literal-like expression."""
    k = rng.random()
    if depth >= 2 or k < 0.6:
        return scalar(rng)
    n = rng.randint(0, 3) if depth or rng.random() < 0.85 else rng.randint(15, 40)
    items = [expr(rng, depth + 1) for _ in range(n)]
    if k < 0.72:
        return '[' + ', '.join(items) + ']'
    if k < 0.82:
        return '(' + ', '.join(items) + (',' if n == 1 else '') + ')'
    if k < 0.95:
        return '{' + ', '.join(f'{("k%d" % i)!r}: {it}' for i, it in enumerate(items)) + '}'
    return '{' + ', '.join(str(rng.randint(0, 9)) for _ in range(n + 1)) + '}'


def value_of(src):
    return eval(src, {})


# annotation source -> imports needed in the defining module
ANNOTATIONS = [
    ('int', None), ('str', None), ('float', None), ('bool', None), ('dict', None), ('list', None),
    ('Optional[int]', 'from typing import Optional'), ('List[str]', 'from typing import List'),
    ('Dict[str, int]', 'from typing import Dict'), ('Any', 'from typing import Any'),
    ('Union[int, str]', 'from typing import Union'), ('Tuple[int, str]', 'from typing import Tuple'),
    ('Optional[List[int]]', 'from typing import List, Optional'),
    ('Callable', 'from typing import Callable'), ('"int"', None),
    ('Sequence[str]', 'from typing import Sequence'),
]

PARAM_NAMES = ['a', 'b', 'c', 'data', 'x', 'y', 'opt', 'value', 'a_b', 'aa', 'b2', 'key', 'kind', 'items_',
               'title', 'size', 'bb', 'abc', '_opt', '_a', '_']


class Param:
    def __init__(self, name, default=None, ann=None, kwonly=False):
        self.name, self.default, self.ann, self.kwonly = name, default, ann, kwonly

    def src(self):
        s = self.name
        if self.ann is not None:
            s += f': {self.ann}'
            if self.default is not None:
                s += f' = {self.default}'
        elif self.default is not None:
            s += f'={self.default}'
        return s

    @property
    def value(self):
        return None if self.default is None else value_of(self.default)

    def __repr__(self):
        return self.src()


def params(rng, n=None, ann_p=0.4, kwonly_p=0.2, required_p=0.3, names=None, simple=False, reserved=()):
    n = rng.randint(0, 4) if n is None else n
    names = list(names or PARAM_NAMES)
    rng.shuffle(names)
    names = [x for x in names if x not in reserved][:n]
    n_kw = sum(1 for _ in names if rng.random() < kwonly_p)
    pos, kw = names[:len(names) - n_kw], names[len(names) - n_kw:]
    out = []
    n_req = sum(1 for _ in pos if rng.random() < required_p)
    for i, nm in enumerate(pos):
        d = None if i < n_req else (str(rng.randint(0, 10 ** 6)) if simple else expr(rng))
        ann = rng.choice(ANNOTATIONS) if rng.random() < ann_p else None
        out.append(Param(nm, d, ann[0] if ann else None))
        out[-1].ann_import = ann[1] if ann else None
    for nm in kw:
        d = None if rng.random() < required_p else (str(rng.randint(0, 10 ** 6)) if simple else expr(rng))
        ann = rng.choice(ANNOTATIONS) if rng.random() < ann_p else None
        out.append(Param(nm, d, ann[0] if ann else None, kwonly=True))
        out[-1].ann_import = ann[1] if ann else None
    return out


def sig(ps, first=None):
    parts = [first] if first else []
    star = False
    for p in ps:
        if p.kwonly and not star:
            parts.append('*')
            star = True
        parts.append(p.src())
    return ', '.join(parts)


def kwdict(ps):
    return 'dict(' + ', '.join(f'{p.name}={p.name}' for p in ps) + ')'


def store(rng):
    return rng.choice(['attr', 'attr', 'attr', 'renamed', 'dict'])


class Fn:
    kind = 'func'

    def __init__(self, module, name, ps):
        self.module, self.name, self.params = module, name, ps
        self.label = f'{module}.{name}'

    def src(self):
        return (f'def {self.name}({sig(self.params)}):\n'
                f'    return vrec.rec({self.label!r}, {kwdict(self.params)})\n')

    def defaults(self):
        return {p.name: p.value for p in self.params}


TRAITS = {'len': ['    def __len__(self):', '        return 0'],
          'bool': ['    def __bool__(self):', '        return False'],
          # all equal, and with eq alone not hashable
          'eq': ['    def __eq__(self, other):', '        return type(other) is type(self)'],
          'hash': ['    def __hash__(self):', '        return 1']}


def traits(rng):
    """How instances of a class behave when something looks at them in other ways than by their attributes."""
    return rng.choice([(), (), (), (), ('len',), ('bool',), ('eq',), ('eq', 'hash'), ('eq', 'len')])


class Kls:
    kind = 'class'

    def __init__(self, module, name, ps, update_hook=False, execute='__call__', base=None, store='attr', key=None):
        self.module, self.name, self.params = module, name, ps
        self.store, self.key = store, key    # how an instance keeps its arguments
        self.label = f'{module}.{name}'
        self.update_hook = update_hook
        self.execute = execute
        self.base = base
        self.traits = ()

    def ref(self, name):
        """Where an instance keeps an argument, as source after `self.`."""
        if self.store == 'attr' or name == self.key:
            return name
        return f'st_{name}' if self.store == 'renamed' else f'vals[{name!r}]'

    def attr(self, name):
        """The attribute of an instance which has to do with an argument."""
        return self.ref(name).partition('[')[0]

    def read(self, obj, name):
        if self.store == 'attr' or name == self.key:
            return getattr(obj, name)
        return getattr(obj, f'st_{name}') if self.store == 'renamed' else obj.vals[name]

    def kw(self):
        return 'dict(' + ', '.join(f'{p.name}=self.{self.ref(p.name)}' for p in self.params) + ')'

    def src(self):
        out = [f'class {self.name}{"(" + self.base + ")" if self.base else ""}:',
               f'    def __init__({sig(self.params, "self")}):']
        if self.store == 'dict':
            out += ['        self.vals = {}']
        out += [f'        self.{self.ref(p.name)} = {p.name}' for p in self.params]
        out += ['        self.plain_attr = None', f'        vrec.init({self.label!r}, {kwdict(self.params)}, self)']
        if self.update_hook:
            out += ['    def _pyfileconf_update_(self, **kwargs):',
                    f'        vrec.init({self.label + "#update"!r}, kwargs, self)',
                    '        for k, v in kwargs.items():']
            out += {'attr': ['            setattr(self, k, v)'],
                    'renamed': [f'            setattr(self, k if k == {self.key!r} else "st_" + k, v)'],
                    'dict': [f'            if k == {self.key!r}:', '                setattr(self, k, v)',
                             '            else:', '                self.vals[k] = v']}[self.store]
        for nm in dict.fromkeys(['__call__', self.execute, *getattr(self, 'methods', ())]):
            out += [f'    def {nm}(self):',
                    f'        return vrec.rec({self.label + "." + nm!r}, {self.kw()})']
        out += ['    def meth(self, arg=1):',
                f'        return vrec.rec({self.label + ".meth"!r}, dict(arg=arg, **{self.kw()}))']
        for t in self.traits:
            out += TRAITS[t]
        return '\n'.join(out) + '\n'

    def defaults(self):
        return {p.name: p.value for p in self.params}


def module_src(callables, extra_imports=()):
    imps = ['import vrec']
    for c in callables:
        for p in c.params:
            if getattr(p, 'ann_import', None):
                imps.append(p.ann_import)
    imps += list(extra_imports)
    return '\n'.join(dict.fromkeys(imps)) + '\n\n\n' + '\n\n'.join(c.src() for c in callables)


SECTION_NAMES = ['sec', 'sec2', 'secs', 'main', 'data', 'sub', 'sub_a', 'anal', 'deep', 'x1', 'general', 'data_', 'sub__b']


class Item:
    """One registered unit; path is relative to the manager."""

    def __init__(self, path, target, specific=None, name=None):
        self.path, self.target, self.specific, self.name = path, target, specific, name

    @property
    def rel_file(self):
        return self.path.replace('.', '/') + '.py'

    def base_config(self):
        d = self.target.defaults()
        if self.specific is not None:
            d[self.specific['key_attr']] = self.name
        return d

    @property
    def run_label(self):
        if self.target.kind == 'func':
            return self.target.label
        if self.specific is not None:
            return f'{self.target.label}.{self.specific["execute_attr"]}'
        return f'{self.target.label}.__call__'

    def __repr__(self):
        return f'Item({self.path}:{self.target.kind})'


class Project:
    def __init__(self):
        self.modules = {}       # name -> list of callables
        self.tree = {}          # section -> dict | list of callables
        self.specifics = []     # dict(name, klass, tree, key_attr, execute_attr)
        self.items = {}         # path -> Item
        self.sections = []      # general section paths
        self.extra_imports = {}
        self.alias = {}         # callable -> name it is imported as in the pipeline dict
        self.via = {}           # callable -> module which re-exports it
        self.style = 0
        self.constants = {}     # module -> source of constants

    def nm(self, c):
        return self.alias.get(c, c.name)

    def write_modules(self, w):
        for name, cs in self.modules.items():
            src = module_src(cs, self.extra_imports.get(name, ()))
            if self.constants.get(name):
                src = src.replace('\n\n\n', '\n' + self.constants[name] + '\n\n\n', 1)
            w.module(name, src)
        rx = {}
        for c, mod in self.via.items():
            rx.setdefault(mod, []).append(c)
        for mod, cs in rx.items():
            w.module(mod, ''.join(f'from {c.module} import {c.name}\n' for c in cs))

    def restyle(self, rng, alias=True):
        """Vary how the pipeline dict file imports its items, then rebuild the index."""
        self.style = rng.randrange(4)
        cs = []

        def walk(node):
            if isinstance(node, dict):
                for v in node.values():
                    walk(v)
            else:
                for it in node:
                    if isinstance(it, dict):
                        walk(it)
                    else:
                        cs.append(it)

        walk(self.tree)
        for i, c in enumerate(dict.fromkeys(cs)):
            r = rng.random()
            if c in self.alias:
                continue
            if alias and r < 0.15:
                self.alias[c] = f'as_{c.name}'
            elif r < 0.3:
                self.via[c] = f'rx{rng.randrange(2)}'
        return self.index()

    def pipeline_dict_src(self):
        used = []

        def walk(node):
            if isinstance(node, dict):
                return '{' + ', '.join(f'{k!r}: {walk(v)}' for k, v in node.items()) + '}'
            out = []
            for it in node:
                if isinstance(it, dict):
                    out.append(walk(it))
                    continue
                if it not in used:
                    used.append(it)
                out.append(self.nm(it))
            if self.style == 2:
                return '[\n' + ''.join(f'        {o},  # item\n' for o in out) + '    ]'
            return '[' + ', '.join(out) + ']'

        body = walk(self.tree)

        def one(c):
            return c.name if c not in self.alias else f'{c.name} as {self.alias[c]}'

        groups = {}
        for c in used:
            groups.setdefault(self.via.get(c, c.module), []).append(one(c))
        imps = ''
        for mod, ns in groups.items():
            if self.style == 0:
                imps += ''.join(f'from {mod} import {n}\n' for n in ns)
            elif self.style == 1:
                imps += f'from {mod} import {", ".join(ns)}\n'
            else:
                imps += f'from {mod} import (\n' + ''.join(f'    {n},\n' for n in ns) + ')\n'
        head = '# the pipeline dict\n' if self.style == 3 else ''
        return head + imps + '\npipeline_dict = ' + body + '\n'

    def spec_src(self, spec):
        return 'class_dict = ' + repr(spec['tree']) + '\n'

    def class_dicts(self, w):
        out = []
        for s in self.specifics:
            conf = {'name': s['name'], 'class': w.get_object(s['klass'].module, s['klass'].name)}
            if s['key_attr'] != 'name':
                conf['key_attr'] = s['key_attr']
            if s['execute_attr'] != '__call__':
                conf['execute_attr'] = s['execute_attr']
            conf.update(s.get('extra', {}))
            out.append((conf, self.spec_src(s)))
        return out

    def build(self, w, name='pm', load=True, **kw):
        self.write_modules(w)
        self.name = name
        return w.manager(name, self.pipeline_dict_src(), class_dicts=self.class_dicts(w), load=load, **kw)

    def index(self):
        self.items, self.sections = {}, []

        def walk(node, path):
            if path:
                self.sections.append(path)
            if isinstance(node, dict):
                for k, v in node.items():
                    walk(v, f'{path}.{k}' if path else k)
            else:
                for it in node:
                    if isinstance(it, dict):
                        for k, v in it.items():
                            walk(v, f'{path}.{k}')
                        continue
                    p = f'{path}.{self.nm(it)}'
                    self.items[p] = Item(p, it)

        walk(self.tree, '')
        for s in self.specifics:
            def walk2(node, path):
                if isinstance(node, dict):
                    for k, v in node.items():
                        walk2(v, f'{path}.{k}')
                else:
                    for nm in node:
                        if isinstance(nm, dict):
                            walk2(nm, path)
                            continue
                        p = f'{path}.{nm}'
                        self.items[p] = Item(p, s['klass'], specific=s, name=nm)
            walk2(s['tree'], s['name'])
        return self

    # shape of get()/run() over a section: nested lists of item paths in definition order
    def shape(self, path):
        node = self.tree
        for part in path.split('.'):
            if isinstance(node, list):
                node = next(d[part] for d in node if isinstance(d, dict) and part in d)
            else:
                node = node[part]

        def walk(node, path):
            out = []
            if isinstance(node, dict):
                for k, v in node.items():
                    out.append(walk(v, f'{path}.{k}'))
            else:
                for it in node:
                    if isinstance(it, dict):
                        for k, v in it.items():
                            out.append(walk(v, f'{path}.{k}'))
                    else:
                        out.append(f'{path}.{self.nm(it)}')
            return out

        return walk(node, path)


def project(rng, n_modules=2, specifics=True, simple=False, classes=True, max_sections=3, ann_p=0.3,
            update_hook_p=0.3, tag='', nested_list=False, share_p=0.3, required_p=0.3, no_reserved=True):
    pr = Project()
    cs = []
    n_modules = rng.randint(1, n_modules)
    for mi in range(n_modules):
        mod = f'{tag}m{mi}' if rng.random() < 0.8 else f'{tag}pkg{mi}.inner'
        lst = []
        for ci in range(rng.randint(1, 3)):
            ps = params(rng, simple=simple, ann_p=ann_p, required_p=required_p)
            pre = rng.choice(['', '', '', '', '', '', '', '_'])
            if classes and rng.random() < 0.3:
                lst.append(Kls(mod, f'{pre}Kl{tag}{mi}{ci}', ps, update_hook=rng.random() < update_hook_p, store=store(rng)))
                lst[-1].traits = traits(rng)
            else:
                lst.append(Fn(mod, f'{pre}fn{tag}{mi}{ci}', ps))
            others = [c for c in cs if c.module != mod and c not in pr.alias and c.name not in [x.name for x in lst]]
            if others and rng.random() < 0.15:
                # one of another module has the same name
                c = lst[-1]
                c.name = rng.choice(others).name
                c.label = f'{mod}.{c.name}'
                pr.alias[c] = f'other_{c.name}{mi}{ci}'
        pr.modules[mod] = lst
        cs += lst
    pool = list(cs)
    rng.shuffle(pool)

    def take(k):
        out = []
        for _ in range(k):
            if pool and rng.random() > share_p:
                out.append(pool.pop())
            else:
                out.append(rng.choice(cs))
        return list(dict.fromkeys(out))

    names = list(SECTION_NAMES)

    def node(depth):
        if depth < 3 and rng.random() < 0.35:
            ks = rng.sample(names, rng.randint(1, 2))
            return {k: node(depth + 1) for k in ks}
        out = take(rng.randint(1, 3))
        if nested_list and depth < 3 and rng.random() < 0.2:
            ks = rng.sample(names, rng.randint(1, 2))
            out = [c for c in out if c.name not in ks]
            out.insert(rng.randint(0, len(out)), {k: node(depth + 1) for k in ks})
        return out

    for k in rng.sample(names, rng.randint(1, max_sections)):
        pr.tree[k] = node(1)
    if pool:
        pr.tree[rng.choice(['rest', 'oth'])] = list(dict.fromkeys(pool))
    if specifics and rng.random() < 0.7:
        for si in range(rng.randint(1, 2)):
            key_attr = rng.choice(['name', 'name', 'key_id'])
            execute = rng.choice(['__call__', '__call__', 'execute'])
            mod = f'{tag}sm{si}'
            ps = [Param(key_attr, 'None')] + params(rng, n=rng.randint(1, 3), simple=simple, ann_p=ann_p,
                                                    required_p=0, kwonly_p=0)
            k = Kls(mod, f'Sp{tag}{si}', ps, update_hook=rng.random() < update_hook_p, execute=execute,
                    store=store(rng), key=key_attr)
            k.traits = traits(rng)
            pr.modules[mod] = [k]
            tree = {}
            for sec in rng.sample(['s1', 's2', 'grp', 's10'], rng.randint(1, 2)):
                names_ = rng.sample(['one', 'two', 'three', 'on', 'one1', 'abc', 'grp', 's1', 'sp0', 'one_', '_two'], rng.randint(1, 3))
                if nested_list and rng.random() < 0.4:
                    k2 = rng.randint(0, len(names_))
                    inner = rng.choice([names_, {'deep': names_}, {'deep': names_, 'else_': [{'low': ['bottom']}]}])
                    tree[sec] = names_[:k2] + [{'inner': inner}] + names_[k2:]
                elif rng.random() < 0.3:
                    tree[sec] = {'inner': names_}
                else:
                    tree[sec] = names_
            pr.specifics.append(dict(name='general' if not si and 'general' not in pr.tree and rng.random() < 0.15 else f'sp{si}', klass=k, tree=tree, key_attr=key_attr, execute_attr=execute))
    pr.index()
    return pr
