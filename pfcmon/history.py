"""Random histories of configuration operations, each followed by observations."""
from pfcmon import gen
from pfcmon.model import Model, Observer, OBSERVERS, check_files, equal_value, new_value, snapshot_files
from pfcmon.util import same


class Manager:
    def __init__(self, m, pm, o):
        self.m, self.pm, self.o = m, pm, o


class History:
    def __init__(self, rng, ctx, w, pr, names=('pm',), sections=False):
        from pfcmon.checks.c03 import write_sections
        self.rng, self.ctx, self.w, self.pr = rng, ctx, w, pr
        self.hist = []
        self.ms = []
        self.ids = {}
        for nm in names:
            m = Model(w, pr, nm)
            pm = pr.build(w, name=nm)
            if rng.random() < 0.6:
                for p in pr.items:
                    if rng.random() < 0.5:
                        m.write_item(rng, p)
                if sections:
                    write_sections(rng, ctx, m, pr, 0.4)
                pm.reload()
            m.load()
            self.ms.append(Manager(m, pm, Observer(w, pm, m)))

    def pick(self):
        g = self.rng.choice(self.ms)
        touched = [p for p, s in g.m.items.items() if s.cur is not None]
        if touched and self.rng.random() < 0.7:
            return g, self.rng.choice(touched)
        return g, self.rng.choice(list(g.m.items))

    def note(self, *op):
        self.hist.append(op)
        self.ctx.log(*op)

    # -- operations ----------------------------------------------------------
    def update(self, g=None, path=None, keys=None, persist=None, back=False):
        rng = self.rng
        if g is None:
            g, path = self.pick()
        free = g.m.free_keys(path)
        if not free:
            return
        ks = keys or rng.sample(free, rng.randint(1, len(free)) if rng.random() < 0.5 else 1)
        cur = g.m.want(path)
        d = {k: new_value(rng, cur[k]) for k in ks}
        st = g.m.items[path]
        for k in list(d):
            if rng.random() < 0.12:
                # a value it had before, or has now: the file's, the current one
                d[k] = equal_value(rng, rng.choice([cur[k], st.file[k], st.persisted.get(k, cur[k])]))
                self.ctx.ev('repeated_values')
        if back or keys is None and rng.random() < 0.1:
            # back to what the file has, or to what was set last
            d = {k: st.file[k] if back or rng.random() < 0.7 else st.persisted.get(k, cur[k]) for k in free}
            self.ctx.ev('repeated_values')
        persist = rng.random() < 0.6 if persist is None else persist
        self.note(g.m.name, 'update', path, d, persist)
        self.ctx.ev('updates_persistent' if persist else 'updates_temporary')
        # equal in the sense of the documentation (nothing would change) but of another type is out of domain
        self.apply_update(g, path, d, persist)
        g.m.update(path, d, persist)

    def apply_update(self, g, path, d, persist):
        r = self.rng.random()
        if r < 0.4:
            g.pm.update(dict(d), section_path_str=path, pyfileconf_persist=persist)
        elif r < 0.7 or not persist:
            g.pm.update(section_path_str=path, pyfileconf_persist=persist, **d)
        elif r < 0.85:
            g.pm.update_batch([dict(section_path_str=path, **d)])
        else:
            for k, v in d.items():
                setattr(g.o.view(path), k, v)

    def edit_file(self, g=None, path=None):
        if g is None:
            g, path = self.pick()
        st = g.m.items[path]
        if st.cur is None:
            self.use(g, path)
        g.m.write_item(self.rng, path)
        self.note(g.m.name, 'edit', path, st.file)
        self.ctx.ev('file_edits')

    def refresh(self, g=None, path=None):
        if g is None:
            g, path = self.pick()
        self.note(g.m.name, 'refresh', path)
        g.pm.refresh(path)
        changed = g.m.refresh(path)
        self.ctx.ev('refreshes_changing' if changed else 'refreshes_without_change')
        if g.m.items[path].persisted:
            self.ctx.ev('refreshes_with_persistent_updates')

    def reset(self, g=None, path=None):
        if g is None:
            g, path = self.pick()
        st = g.m.items[path]
        if st.persisted:
            self.ctx.ev('resets_discarding_updates')
        how = self.rng.randrange(3)
        self.note(g.m.name, 'reset', path, how)
        if how == 0:
            g.pm.reset(g.o.view(path))
        else:
            g.pm.reset(path)
        changed = g.m.reset(path)
        self.ctx.ev('resets_changing' if changed else 'resets_without_change')

    def reload(self, g=None):
        g = g or self.rng.choice(self.ms)
        self.note(g.m.name, 'reload')
        g.pm.reload()
        g.m.load()
        g.o.views.clear()
        for k in [k for k in self.ids if k[0] == g.m.name]:
            del self.ids[k]
        self.ctx.ev('reloads')

    def use(self, g=None, path=None, why='using an item'):
        if g is None:
            g, path = self.pick()
        how = self.rng.choice(OBSERVERS)
        self.note(g.m.name, 'use', path, how)
        g.o.check(self.ctx, path, how, why)
        self.check_identity(g, path, why)

    # -- monitors --------------------------------------------------------------
    def check_item(self, g, path, why, n=2):
        for how in self.rng.sample(OBSERVERS, n):
            g.o.check(self.ctx, path, how, why)
        self.check_identity(g, path, why)

    def check_identity(self, g, path, why):
        if not g.m.items[path].loaded:
            return
        obj = g.pm.get(path)
        k = (g.m.name, path)
        self.ctx.check(self.ids.setdefault(k, obj) is obj, f'{why}: {g.m.name}.{path} is no longer the same object',
                       ev='identity_checks')

    def check_others(self, why, n=3):
        for _ in range(self.rng.randint(1, n)):
            g = self.rng.choice(self.ms)
            if not g.m.items:
                continue
            path = self.rng.choice(list(g.m.items))
            g.o.check(self.ctx, path, self.rng.choice(OBSERVERS), why)
            self.check_identity(g, path, why)
            self.ctx.ev('others_observed')

    def check_all(self, why):
        for g in self.ms:
            for path in self.rng.sample(list(g.m.items), len(g.m.items)):
                self.check_item(g, path, why, 1)

    def state(self):
        self.ctx.state([(g.m.name, p, s.loaded, s.cur is None, sorted(s.persisted),
                         None if s.cur is None else sorted(k for k in s.cur if not same(s.cur[k], s.file[k])))
                        for g in self.ms for p, s in g.m.items.items()])
