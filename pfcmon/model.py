"""Reference model of the configuration of the items of a manager, and the observers
which read the real thing through every public way of using an item.

The model knows, for every item: the values of its config file, the values of the
section.py files on its path, the persisted updates, and the resulting current values.
"""
import copy
import os

from pfcmon.util import same
from pfcmon.world import Token

COUNTER = [0]


class Thing:
    """A value compared by identity, as user objects without __eq__ are."""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f'Thing({self.n})'


def fresh_src(rng):
    """Source of a value never used before (so every observation identifies its write)."""
    COUNTER[0] += 1
    n = COUNTER[0]
    return rng.choice([f'{n}', f'"v{n}"', f'[{n}, "x"]', f'{{"k": {n}}}', f'({n}, None)', f'{n}.5', f'b"{n}"',
                       f'{n} + 0', f'-{n}', f'{{{n}}}', f'[[{n}], {{"a": ({n},)}}]'])


PLAIN = ['None', "''", '[]', '{}', '()', "b''"]


def any_src(rng):
    """Source of a new value, or of one which is false."""
    return rng.choice(PLAIN) if rng.random() < 0.12 else fresh_src(rng)


def fresh_value(rng):
    """A unique value of any type, including some which cannot be written as source."""
    import numpy as np
    import pandas as pd
    r = rng.random()
    if r < 0.6:
        return eval(fresh_src(rng))
    COUNTER[0] += 1
    n = COUNTER[0]
    k = rng.randrange(9)
    if k == 0:
        return np.array([n, n + 1])
    if k == 8:
        return np.array([n + 0.5, 2.0])
    if k == 1:
        return np.array([[n * 1.0, float('nan')], [0.0, 1.0]])
    if k == 2:
        return pd.DataFrame({'a': [n, 2], 'b': ['x', 'y']})
    if k == 3:
        return pd.Series([n, n * 2])
    if k == 4:
        return Thing(n)
    if k == 5:
        return lambda n=n: n
    if k == 6:
        return type(f'C{n}', (), {})
    return [Thing(n), {'z': n}]


def near_value(rng, old):
    """A value which is hard to tell from the old one, but is not equal to it; something new if there is none."""
    import math
    import numpy as np
    import pandas as pd

    def near(v):
        if isinstance(v, bool) or v is None:
            return fresh_value(rng)
        if isinstance(v, int):
            return rng.choice([v + 1, -v, v + 0.5, str(v), [v]])
        if isinstance(v, float):
            return rng.choice([math.nextafter(v, math.inf), -v, str(v)]) if v == v else 0.0
        if isinstance(v, str):
            return rng.choice([v + ' ', ' ' + v, v + '\n', v.swapcase(), v.encode(), [v], v * 2, v[:-1]])
        if isinstance(v, bytes):
            return rng.choice([v + b'\0', v.decode('latin-1'), v[:-1]])
        if isinstance(v, np.ndarray):
            w = v.copy()
            k = rng.randrange(4)
            if k == 0:
                return w.reshape(1, *w.shape)
            if k == 1:
                return w.tolist()
            if k == 2:
                return np.append(w, w[-1:], axis=0)
            if w.dtype.kind == 'f':
                w[-1] = np.nextafter(w[-1], np.inf)
            else:
                w[-1] += 1
            return w
        if isinstance(v, pd.DataFrame):
            return rng.choice([v.rename(columns={v.columns[0]: 'other'}), v[list(v.columns[::-1])], v.iloc[:-1],
                               v.set_axis([f'r{i}' for i in range(len(v))]), v.to_dict(), v[v.columns[0]],
                               v.assign(**{v.columns[0]: v[v.columns[0]].astype(float) * (1 + 1e-12)}), v.values])
        if isinstance(v, pd.Series):
            return rng.choice([v.iloc[:-1], v.set_axis([f'r{i}' for i in range(len(v))]), v.to_frame(), v.tolist(),
                               v.astype(float) + 1e-9, v[::-1]])
        if isinstance(v, list):
            return rng.choice([v + [None], tuple(v), v[::-1], v[:-1]] +
                              [[*v[:-1], near(v[-1])] for _ in v[:1]])
        if isinstance(v, tuple):
            return rng.choice([(*v, None), list(v), v[::-1], v[:-1]] + [(*v[:-1], near(v[-1])) for _ in v[:1]])
        if isinstance(v, dict):
            return rng.choice([{**v, 'zz': None}, list(v.items())] + [{**v, k: near(v[k])} for k in list(v)[:1]])
        if isinstance(v, (set, frozenset)):
            return rng.choice([v | {-1}, list(v)])
        return fresh_value(rng)

    try:
        new = near(old)
        if not same(new, old) and not loosely_equal(new, old):
            return new
    except Exception:       # there is nothing near, or comparing is ambiguous
        pass
    return fresh_value(rng)


def loosely_equal(a, b):
    """Whether the values are interchangeable for the library: equal, perhaps of other number types within."""
    import numpy as np
    import pandas as pd
    if isinstance(a, (pd.DataFrame, pd.Series)) or isinstance(b, (pd.DataFrame, pd.Series)):
        return type(a) is type(b) and a.equals(b)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return type(a) is type(b) and np.array_equal(a, b)
    return bool(a == b)


def new_value(rng, old):
    if rng.random() < 0.1:
        v = eval(rng.choice(PLAIN))
        if not loosely_equal(v, old):
            return v
    return near_value(rng, old) if rng.random() < 0.3 else fresh_value(rng)


def equal_value(rng, v):
    """The value itself, or an equal copy of it."""
    if rng.random() < 0.5:
        return v
    c = copy.deepcopy(v)
    return c if same(c, v) else v


class ItemState:
    def __init__(self, item, file_values):
        self.item = item
        self.file = dict(file_values)     # what the config file evaluates to now
        self.persisted = {}
        self.cur = None                   # current configuration; None until the file is first read
        self.loaded = False


class Model:
    """Configurations of one manager."""

    def __init__(self, w, pr, name):
        self.w, self.pr, self.name = w, pr, name
        self.items = {}
        self.disk_sections = {}      # section path ('' is the project) -> dict as on disk
        self.sections = {}           # as loaded by the manager
        for p, it in pr.items.items():
            self.items[p] = ItemState(it, it.base_config())

    # -- files -------------------------------------------------------------
    def base(self):
        return os.path.join(self.w.folder(self.name), 'defaults')

    def write_item(self, rng, path, keys=None, keep=0.3):
        """Rewrite the config file of an item with new values for some parameters."""
        st = self.items[path]
        lines = []
        key_attr = st.item.specific['key_attr'] if st.item.specific else None
        vals = {}
        for k in st.file:
            if k == key_attr or (keys is None and rng.random() < keep) or (keys is not None and k not in keys):
                vals[k] = (repr(st.file[k]), st.file[k])
                if k in getattr(st, 'src', {}):
                    vals[k] = (st.src[k], st.file[k])
            else:
                src = any_src(rng)
                vals[k] = (src, eval(src))
        order = list(vals)
        if rng.random() < 0.3:
            rng.shuffle(order)
        if rng.random() < 0.3:
            lines.append('import os')
        if rng.random() < 0.3:
            lines.append('# edited')
        for k in order:
            lines.append(f'{k} = {vals[k][0]}')
        self.w.write_config(os.path.join(self.base(), st.item.rel_file), '\n'.join(lines) + '\n')
        st.src = {k: v[0] for k, v in vals.items()}
        st.file = {k: v[1] for k, v in vals.items()}

    def write_section(self, rng, sec, keys):
        vals = {k: any_src(rng) for k in keys}
        text = ''.join(f'{k} = {v}\n' for k, v in vals.items())
        self.w.write_config(os.path.join(self.base(), *(sec.split('.') if sec else []), 'section.py'), text)
        self.disk_sections[sec] = {k: eval(v) for k, v in vals.items()}

    def load(self):
        """The manager (re)read everything."""
        self.sections = {k: dict(v) for k, v in self.disk_sections.items()}
        for st in self.items.values():
            st.cur, st.persisted, st.loaded = None, {}, False

    # -- semantics ---------------------------------------------------------
    def overlay(self, path):
        out = {}
        parts = path.split('.')[:-1]
        for i in range(len(parts) + 1):
            out.update(self.sections.get('.'.join(parts[:i]), {}))
        keys = set(self.items[path].file)
        return {k: v for k, v in out.items() if k in keys}

    def touch(self, path):
        st = self.items[path]
        if st.cur is None:
            st.cur = {**st.file, **self.overlay(path)}
        return st

    def use(self, path):
        st = self.touch(path)
        st.loaded = True
        return st

    def changes(self, path, d):
        """Would these values change the configuration of the item?"""
        st = self.touch(path)
        return any(k in st.cur and not same(st.cur[k], v) for k, v in d.items())

    def update(self, path, d, persist=True):
        st = self.touch(path)
        d = {k: v for k, v in d.items() if k in st.cur}
        changed = self.changes(path, d)
        st.cur.update(d)
        if persist:
            st.persisted.update(d)
        return changed

    def refresh(self, path):
        st = self.touch(path)
        new = {**st.file, **st.persisted, **self.overlay(path)}
        changed = not same(new, st.cur)
        st.cur = new
        return changed

    def reset(self, path):
        st = self.touch(path)
        new = {**st.file, **self.overlay(path)}
        changed = not same(new, st.cur)
        st.cur = new
        st.persisted = {}
        return changed

    def want(self, path):
        return dict(self.touch(path).cur)

    def free_keys(self, path):
        """Parameters which no section.py on the path overrides (and not the key of a specific class)."""
        st = self.items[path]
        ov = self.overlay(path)
        key = st.item.specific['key_attr'] if st.item.specific else None
        return [k for k in st.file if k not in ov and k != key]


# --------------------------------------------------------------------------
# observers: every way of using an item
# --------------------------------------------------------------------------
OBSERVERS = ['run', 'get', 'getcall', 'attr', 'view', 'viewcall', 'config']


class Observer:
    def __init__(self, w, pm, model, prefix=None):
        self.w, self.pm, self.model = w, pm, model
        self.name = model.name
        self.views = {}
        self.n = 0

    def _attrs(self, obj, item):
        from functools import partial
        if item.target.kind == 'func':
            assert isinstance(obj, partial), f'{item.path} is {type(obj)}, not a configured function'
            assert not obj.args, f'positional arguments {obj.args}'
            return dict(obj.keywords)
        return {p.name: item.target.read(obj, p.name) for p in item.target.params}

    def view(self, path):
        from pyfileconf import Selector
        self.n += 1
        if self.n % 2 and path in self.views:
            return self.views[path]       # created before some operations, must not go stale
        v = Selector()
        for part in [self.name] + path.split('.'):
            v = getattr(v, part)
        return self.views.setdefault(path, v)

    def attr(self, path):
        o = self.pm
        for part in path.split('.'):
            o = getattr(o, part)
        return o

    def read(self, path, how):
        """The configuration of the item as seen this way."""
        it = self.model.items[path].item
        R = self.w.R
        n0 = len(R.calls)
        if how == 'config':
            c = self.pm.config.get(path)
            return {k: c[k] for k in self.model.items[path].file}
        if how == 'run':
            res = self.pm.run(path)
            assert len(R.calls) == n0 + 1, f'running {path} made {len(R.calls) - n0} calls'
            label, kw = R.calls[-1]
            assert label == it.run_label, f'running {path} called {label}'
            assert isinstance(res, Token) and res.seq == R.seq, 'wrong result'
            return kw
        if how in ('get', 'attr'):
            return self._attrs(self.pm.get(path) if how == 'get' else self.attr(path), it)
        if how == 'getcall':
            o = self.pm.get(path)
            if it.specific is not None:
                o = getattr(o, it.specific['execute_attr'])
            o()
            assert len(R.calls) == n0 + 1
            return R.calls[-1][1]
        if how == 'view':
            v = self.view(path)
            if it.target.kind == 'func':
                return dict(v.keywords)
            return {p.name: it.target.read(v, p.name) for p in it.target.params}
        if how == 'viewcall':
            v = self.view(path)
            res = v()
            if it.target.kind == 'class' and it.specific is None:
                # calling a view of a general class gives the configured object
                return self._attrs(res, it)
            assert len(R.calls) == n0 + 1, f'calling view of {path} made {len(R.calls) - n0} calls'
            assert R.calls[-1][0] == it.run_label, f'calling view of {path} called {R.calls[-1][0]}'
            return R.calls[-1][1]
        raise KeyError(how)

    def check(self, ctx, path, how, why):
        want = self.model.want(path)
        try:
            got = self.read(path, how)
        except AssertionError as e:
            ctx.fail(f'{why}: observing {self.name}.{path} by {how}: {e}')
        if how != 'config':
            self.model.use(path)
        ctx.eq(got, want, f'{why}: configuration of {self.name}.{path} seen by {how}', ev='observations')
        ctx.ev('seen_by_' + how)


def snapshot_files(w):
    out = {}
    for d, _, fs in sorted(os.walk(w.proj)):
        for f in sorted(fs):
            if f.endswith('.pyc'):
                continue
            p = os.path.join(d, f)
            with open(p, 'rb') as fh:
                out[os.path.relpath(p, w.proj)] = fh.read()
    return out


def check_files(ctx, w, before, why):
    after = snapshot_files(w)
    if after != before:
        diff = [k for k in set(after) | set(before) if after.get(k) != before.get(k)]
        ctx.fail(f'{why}: files changed: {diff}\n{before.get(diff[0])!r}\n{after.get(diff[0])!r}')
    ctx.ev('file_snapshots')
