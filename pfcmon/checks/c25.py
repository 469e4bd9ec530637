"""C25: projects are begun from nothing and go on in later sessions."""
import copy
import gc
import os
import shutil

from pfcmon import gen
from pfcmon.checks.c14 import Create
from pfcmon.history import History, Manager
from pfcmon.model import ItemState, Model, Observer, OBSERVERS
from pfcmon.world import World

ID = 'C25'
RULE = ('Managers are constructed over folders in random states (missing with its parents, empty, holding any subset of the '
        'dict files, config folder and foreign files), with any name of the config folder, class dicts, relative paths and '
        'log folders; files and folders on disk are compared before and after constructing, and loading what was found '
        'there with the reference model. From there histories of creates, updates, edits, uses and reloads, and several '
        'sessions one after the other between which parts of the project (config files, folders, dict files) are lost; '
        'after each start every item registered is compared with the model, and files which are still there are '
        'compared with what they were. Distinct by the states of the folder and operations.')
ASSUMPTIONS = ['nobody else writes below the folder while the project is used']
REQUIRED = {'begun': 300, 'begun_from_nothing': 80, 'begun_with_parts': 80, 'custom_config_folders': 80,
            'class_dict_files_made': 60, 'files_kept': 500, 'sessions': 500, 'losses': 300, 'creates': 300,
            'observations': 3000, 'dict_files_executed': 500, 'foreign_files': 60, 'log_folders': 20, 'refused': 30}
CASES = {'quick': 420, 'thorough': 6000}


class Mod(Model):
    conf = 'defaults'
    where = None

    def base(self):
        return os.path.join(self.where or self.w.folder(self.name), self.conf)


def tree_of(root):
    """Every file with its contents and every folder below."""
    out = {}
    for d, ds, fs in os.walk(root):
        ds[:] = [x for x in ds if x != '__pycache__']
        for x in ds:
            out[os.path.relpath(os.path.join(d, x), root) + '/'] = None
        for f in fs:
            p = os.path.join(d, f)
            with open(p, 'rb') as fh:
                out[os.path.relpath(p, root)] = (fh.read(), os.stat(p).st_mode)
    return out


class Life:
    def __init__(self, rng, ctx, w, base, h):
        self.rng, self.ctx, self.w, self.h = rng, ctx, w, h
        self.pr = copy.deepcopy(base)
        self.pr.index()
        self.name = rng.choice(['pm', 'main_project', 'p1'])
        self.conf = rng.choice(['defaults', 'defaults', 'config', 'my_defaults', 'conf.d', 'Conf'])
        self.rel = rng.choice([self.name, 'new/deeper/' + self.name, 'with space/' + self.name, 'caf\u00e9/' + self.name,
                               self.name + '/'])
        self.folder = os.path.normpath(os.path.join(w.proj, self.rel))
        self.given = rng.choice([os.path.join(w.proj, self.rel), os.path.relpath(os.path.join(w.proj, self.rel))])
        self.spec_conf = [conf for conf, _ in self.pr.class_dicts(w)]
        if self.conf != 'defaults':
            ctx.ev('custom_config_folders')
        self.states = []

    def file(self, *parts):
        return os.path.join(self.folder, *parts)

    def prepare(self):
        """What is there before the project is used the first time"""
        rng, ctx, pr, w = self.rng, self.ctx, self.pr, self.w
        r = rng.random()
        self.pipeline = self.class_files = False
        if r < 0.35:
            ctx.ev('begun_from_nothing')
        else:
            os.makedirs(self.folder)
            if r > 0.45:
                ctx.ev('begun_with_parts')
                if rng.random() < 0.5:
                    self.pipeline = True
                    w.write(self.file('pipeline_dict.py'), pr.pipeline_dict_src())
                if rng.random() < 0.5:
                    os.makedirs(self.file(self.conf))
                for s in pr.specifics:
                    if rng.random() < 0.5:
                        w.write(self.file(s['name'] + '_dict.py'), pr.spec_src(s))
                        s['there'] = True
            if rng.random() < 0.4:
                ctx.ev('foreign_files')
                for f in rng.sample(['README.md', 'notes.py', '.git/config', 'defaults.txt', 'other/section.py', 'data.bin',
                                     'defaults_dict.py', '.hidden', 'pipeline_dict.py.bak'], rng.randint(1, 4)):
                    w.write(self.file(f), rng.choice(['', 'x = 1\n', 'this is ( not python\n']))
        self.forget()

    def forget(self):
        """Items of dict files which are not there are not registered."""
        pr = self.pr
        if not os.path.exists(self.file('pipeline_dict.py')):
            pr.tree = {}
        for s in pr.specifics:
            if not os.path.exists(self.file(s['name'] + '_dict.py')):
                s['tree'] = {}
        pr.index()

    def construct(self):
        from pyfileconf import PipelineManager, context
        ctx, rng, w, pr = self.ctx, self.rng, self.w, self.pr
        before = tree_of(w.root)
        was = os.path.isdir(self.folder)
        n = len(w.R.calls) + len(w.R.inits)
        pm = PipelineManager(self.given, name=self.name, specific_class_config_dicts=self.spec_conf or None,
                             default_config_folder_name=self.conf)
        w.managers[self.name] = pm
        ctx.ev('begun')
        after = tree_of(w.root)
        rel = os.path.relpath(self.folder, w.root)
        for k, v in before.items():
            ctx.check(k in after and after[k] == v, f'constructing the manager changed {k}', ev='files_kept')
        new = set(after) - set(before)
        want = set()
        parts = rel.split(os.sep)
        for i in range(1, len(parts) + 1):
            want.add('/'.join(parts[:i]) + '/')
        want |= {f'{rel}/{self.conf}/', f'{rel}/pipeline_dict.py'} | {f'{rel}/{s["name"]}_dict.py' for s in pr.specifics}
        if self.logs:
            for i in range(1, len(self.logs.split('/')) + 1):
                want.add('/'.join(self.logs.split('/')[:i]) + '/')
        want = {k for k in want if k not in before}
        ctx.check(new == want, f'constructing the manager ({"existing" if was else "missing"} folder, config folder '
                  f'{self.conf}) made {sorted(new)}, specified {sorted(want)}')
        for s in pr.specifics:
            if f'{rel}/{s["name"]}_dict.py' in new:
                ctx.ev('class_dict_files_made')
        ctx.eq(len(w.R.calls) + len(w.R.inits), n, 'calls and constructions by constructing the manager')
        ctx.check(context.active_managers.get(self.name) is pm, 'the manager is not the active one')
        self.states.append(tuple(sorted(k.replace(rel, '') for k in new)))
        # again, there is nothing left to do
        if rng.random() < 0.3:
            pm = PipelineManager(self.given, name=self.name, specific_class_config_dicts=self.spec_conf or None,
                                 default_config_folder_name=self.conf)
            w.managers[self.name] = pm
            ctx.check(tree_of(w.root) == after, 'constructing a second manager changed files')
        return pm

    def start(self, items):
        """A session: construct, load, and compare. items: the states known from before."""
        ctx, rng, w, pr = self.ctx, self.rng, self.w, self.pr
        pm = self.construct()
        m = Mod(w, pr, self.name)
        m.conf, m.where = self.conf, self.folder
        for p, st in items.items():
            if p in m.items:
                m.items[p].file = st.file
                if hasattr(st, 'src'):
                    m.items[p].src = st.src
        before = tree_of(self.folder)
        pm.load()
        m.load()
        ctx.ev('sessions')
        after = tree_of(self.folder)
        for k, v in before.items():
            if k.startswith(self.conf + '/') and k.endswith('.py') and not k.endswith('section.py'):
                # compared by what it evaluates to, as loading may bring it into its canonical form
                ctx.check(k in after, f'loading removed {k}')
                continue
            ctx.check(k in after and after[k] == v, f'loading changed {k}', ev='files_kept')
        want = set()
        for p in list(m.items) + [s + '.section' for s in pr.sections + [x['name'] for x in pr.specifics]]:
            parts = p.split('.')
            want.add(f'{self.conf}/' + '/'.join(parts) + '.py')
        got = {k for k in set(after) - set(before) if not k.endswith('/')}
        allowed = want | {k for k in got if k.startswith(self.conf + '/') and k.endswith('/section.py')}
        ctx.check(got <= allowed, f'loading made {sorted(got - allowed)}')
        for p in m.items:
            k = f'{self.conf}/' + p.replace('.', '/') + '.py'
            ctx.check(k in after, f'there is no config file of {p} after loading')
        g = Manager(m, pm, Observer(w, pm, m))
        self.h.ms[:] = [g]
        self.h.ids.clear()
        for p in m.items:
            for how in rng.sample(OBSERVERS, 2):
                g.o.check(ctx, p, how, f'in session {len(self.states)}')
        return g

    def lose(self, g):
        """Between sessions. Returns what is known of the items"""
        rng, ctx, w, pr, m = self.rng, self.ctx, self.w, self.pr, g.m
        items = m.items
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            what = rng.choice(['item', 'item', 'section', 'folder', 'pipeline', 'class', 'cache', 'section file', 'all',
                               *(['logs'] * 3 if self.logs else [])])
            gone = []
            if what == 'item' and items:
                p = rng.choice(list(items))
                f = os.path.join(m.base(), items[p].item.rel_file)
                if os.path.exists(f):
                    os.remove(f)
                gone = [p]
            elif what == 'section' and pr.sections:
                sec = rng.choice(pr.sections)
                shutil.rmtree(os.path.join(m.base(), *sec.split('.')), ignore_errors=True)
                gone = [p for p in items if p.startswith(sec + '.')]
            elif what == 'folder' and rng.random() < 0.5:
                shutil.rmtree(m.base(), ignore_errors=True)
                gone = list(items)
            elif what == 'all' and rng.random() < 0.3:
                shutil.rmtree(self.folder, ignore_errors=True)
                gone = list(items)
            elif what == 'pipeline' and rng.random() < 0.5:
                if os.path.exists(self.file('pipeline_dict.py')):
                    os.remove(self.file('pipeline_dict.py'))
            elif what == 'class' and pr.specifics and rng.random() < 0.6:
                f = self.file(rng.choice(pr.specifics)['name'] + '_dict.py')
                if os.path.exists(f):
                    os.remove(f)
            elif what == 'section file':
                fs = [os.path.join(d, f) for d, _, fs in os.walk(m.base()) for f in fs if f == 'section.py']
                if fs:
                    os.remove(rng.choice(sorted(fs)))
            elif what == 'logs':
                shutil.rmtree(os.path.join(w.root, self.logs), ignore_errors=True)
                ctx.ev('log_folders_lost')
            elif what == 'cache':
                for d, ds, _ in os.walk(self.folder):
                    if '__pycache__' in ds:
                        shutil.rmtree(os.path.join(d, '__pycache__'))
            else:
                continue
            ctx.ev('losses')
            self.h.note(self.name, 'lost', what, gone)
            for p in gone:
                items[p].file = items[p].item.base_config()
                items[p].src = {}
        self.forget()
        # what is registered again later finds the config file which was left
        self.left = {**getattr(self, 'left', {}), **items}
        return items


class Made(Create):
    def left_over(self, g, full, defaults, key=None):
        f = os.path.join(g.m.base(), full.replace('.', '/') + '.py')
        if os.path.exists(f):
            return dict(self.life.left[full].file)
        return None


def refused(rng, ctx, life):
    """A manager which cannot be made leaves the files and the other managers alone"""
    from pyfileconf import PipelineManager, context
    w = life.w
    before, managers = tree_of(w.root), dict(context.active_managers)
    kind = rng.choice(['policies', 'file', 'file above'])
    kw = {}
    folder = os.path.join(w.proj, 'refused')
    if kind == 'policies':
        kw = dict(auto_pdb=True, force_continue=True)
    else:
        w.write(os.path.join(w.proj, 'a_file'), 'x')
        before = tree_of(w.root)
        folder = os.path.join(w.proj, 'a_file', *(['below'] if kind == 'file above' else []))
    ctx.ev('refused')
    try:
        PipelineManager(folder, name=rng.choice([life.name, 'another']), **kw)
    except (ValueError, OSError):
        pass
    else:
        ctx.fail(f'a manager was made ({kind})')
    ctx.check(tree_of(w.root) == before, f'a manager which was refused ({kind}) changed files')
    ctx.check(dict(context.active_managers) == managers, f'a manager which was refused ({kind}) changed the active ones')


def run_case(rng, ctx):
    from pyfileconf import options
    base = gen.project(rng, simple=rng.random() < 0.7, share_p=0.4, max_sections=2)
    base.modules['spare'] = [gen.Fn('spare', 'spare_fn', gen.params(rng, simple=True)),
                             gen.Kls('spare', 'SpareKl', gen.params(rng, simple=True))]
    base.modules['spare'][1].traits = gen.traits(rng)
    with World('c25') as w:
        base.write_modules(w)
        h = History(rng, ctx, w, base, ())
        life = Life(rng, ctx, w, base, h)
        w.folder = lambda name: life.folder
        life.logs = None
        life.prepare()
        ctx.log(life.given, life.conf, life.pr.pipeline_dict_src(), [s['tree'] for s in life.pr.specifics])
        if rng.random() < 0.25:
            life.logs = rng.choice(['logs', 'var/logs', os.path.relpath(life.file('logs'), w.root)])
            options.log_folder = os.path.join(w.root, life.logs)
            ctx.ev('log_folders')
        items = {}
        made = Made(rng, ctx, w, h)
        made.life = life
        for session in range(rng.randint(2, 4)):
            g = life.start(items)
            made.dict_files(g)
            made.listed(g)
            for _ in range(rng.randint(1, 5)):
                r = rng.random()
                if r < 0.45:
                    full = made.create(g)
                    if full:
                        h.check_item(g, full, 'the created item', 3)
                        made.dict_files(g)
                        made.listed(g)
                elif r < 0.5:
                    refused(rng, ctx, life)
                elif not g.m.items:
                    continue
                elif r < 0.65:
                    h.update(g, rng.choice(list(g.m.items)))
                elif r < 0.75:
                    p = rng.choice(list(g.m.items))
                    g.m.touch(p)
                    g.pm.config.get(p)
                    g.m.write_item(rng, p)
                    h.note(g.m.name, 'edit', p)
                    if rng.random() < 0.5:
                        h.refresh(g, p)
                elif r < 0.85:
                    h.use(g, rng.choice(list(g.m.items)))
                elif r < 0.95:
                    h.reload(g)
                elif life.pr.sections:
                    made.sections(g)
                if g.m.items:
                    h.check_others('other item', 2)
            items = life.lose(g)
            h.ms.clear()
            h.ids.clear()
            g = None
            w.new_session()
            life.spec_conf = [conf for conf, _ in life.pr.class_dicts(w)]
            gc.collect()
        life.start(items)
        ctx.case_key(life.states, [o[1:3] for o in h.hist])
        for s in life.states:
            ctx.state(s)
        ctx.sample = {'folder': life.rel, 'made at each start': life.states, 'operations': [repr(o) for o in h.hist[:20]]}
