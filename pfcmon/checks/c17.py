"""C17: options and logging are scoped, and side effects on the process undone."""
import io
import logging
import os
import sys
from logging.handlers import TimedRotatingFileHandler

from pfcmon import gen
from pfcmon.world import World

ID = 'C17'
RULE = ('Random programs over the options: setting by set_option, set_options, the value attribute and assignment, '
        'resetting one, several or all, values set again, folders which are new, nested, relative, shared, equal to '
        'the current one or impossible, unknown names; nested with blocks left normally, by exceptions and by '
        'interrupts, around runs of items, sections and lists (also nested runs, failing runs, under every failure '
        'policy, and items which redirect or replace stdout) whose items print unique markers. After every step the '
        'values of all options and sys.stdout are compared with a model, a unique record is logged and every log '
        'file in every folder is searched for every record and printed marker: each must be in the file of the '
        'folder set when it was logged, exactly once, and nowhere else; the handler rolls over as the '
        'options said when the folder was set. Non-trivial: at least two changes of log_folder or log_stdout; distinct by program.')
ASSUMPTIONS = ['rollover does not take place during a case', 'log folders are not deleted while in use',
               'each text printed is one string (print logs every write separately)']
REQUIRED = {'steps': 3000, 'folder_changes': 300, 'folder_switches': 100, 'folder_unset': 100, 'impossible_folders': 50,
            'records_logged': 2000, 'records_not_filed': 300, 'with_blocks': 200, 'with_left_by_exception': 60,
            'nested_with': 30, 'runs_logged_stdout': 200, 'runs_failing_logged_stdout': 50, 'runs_plain_stdout': 100,
            'markers_printed': 800, 'blanks_printed': 100, 'stdout_checks': 3000, 'log_files_read': 3000, 'stdout_replaced_by_item': 20,
            'nested_runs': 30, 'options_compared': 10000, 'resets': 200, 'operations_logged': 200}
CASES = {'quick': 1500, 'thorough': 20000}
DEFAULTS = {'log_stdout': False, 'log_folder': None, 'log_file_rollover_freq': 'D', 'log_file_num_keep': 0}


class Leave(Exception):
    pass


class Case:
    def __init__(self, rng, ctx, w):
        self.rng, self.ctx, self.w = rng, ctx, w
        self.vals = dict(DEFAULTS)
        self.folders = [os.path.join(w.root, 'logs', x) for x in ('a', 'ab', 'a/inner', 'b')] + ['relative_logs', 'a']
        self.rolling = set()
        self.records = {}       # marker -> folder (absolute) or None
        self.n = 0
        self.blanks = {}        # white space printed -> folder
        self.depth = 0
        self.hist = []
        self.printed = []
        self.changes = 0
        self.blocker = w.write('logs/a_file', '')
        pr = gen.project(rng, simple=True, specifics=rng.random() < 0.5)
        self.pr = pr
        self.pm = pr.build(w)
        for it in pr.items.values():
            w.R.hooks[it.run_label] = self.body

    # -- markers -------------------------------------------------------------
    def marker(self):
        self.n += 1
        return f'MARK{self.n:05d}END'

    def folder(self):
        f = self.vals['log_folder']
        return None if f is None else os.path.join(self.cwd, f)

    cwd = property(lambda self: self.w.root)

    def logged(self, m):
        self.records[m] = self.folder()
        self.ctx.ev('records_logged')
        if self.records[m] is None:
            self.ctx.ev('records_not_filed')

    # -- what items do ---------------------------------------------------------
    def body(self, kw):
        rng, ctx = self.rng, self.ctx
        for _ in range(rng.randint(0, 3)):
            m = self.marker()
            how = rng.randrange(5)
            text = rng.choice([m, f'{m} text', f'line\n{m}\nline', f' {m}\t', f'{m} %s {{}} %d'])
            if how == 0:
                sys.stdout.write(text)
            elif how == 1:
                print(text, end='')
            elif how == 2:
                print(text, flush=True)
            else:
                print(text)
            ctx.ev('markers_printed')
            self.printed.append(m)
            if self.in_logged:
                self.logged(m)
        if self.in_logged and rng.random() < 0.3:
            # white space only
            self.n += 1
            m = '\v' + f'{self.n:016b}'.replace('0', ' ').replace('1', '\t') + '\v'
            rng.choice([print, sys.stdout.write])(m)
            self.blanks[m] = self.folder()
            ctx.ev('blanks_printed')
        r = rng.random()
        if r < 0.06:
            from contextlib import redirect_stdout
            with redirect_stdout(io.StringIO()):
                print(self.marker())
            ctx.ev('stdout_replaced_by_item')
        elif r < 0.1 and self.in_logged and not self.level:
            sys.stdout = io.StringIO()
            ctx.ev('stdout_replaced_by_item')
            self.printed_on = False
            self.in_logged = False
        elif r < 0.18 and self.level < 2 and not self.failing:
            self.level += 1
            ctx.ev('nested_runs')
            try:
                self.pm.run(rng.choice(list(self.pr.items)))
            finally:
                self.level -= 1
        if self.failing and rng.random() < 0.5:
            raise self.failing
        return None

    def run(self):
        rng, ctx = self.rng, self.ctx
        secs = self.pr.sections
        req = rng.choice([lambda: rng.choice(list(self.pr.items)), lambda: rng.choice(secs or list(self.pr.items)),
                          lambda: [rng.choice(list(self.pr.items)) for _ in range(rng.randint(0, 4))]])()
        self.failing = rng.choice([None, ValueError('x'), KeyboardInterrupt(), OSError(1, 'y'), SystemExit()]) \
            if rng.random() < 0.4 else None
        mode = rng.choice(['plain', 'plain', 'continue', 'pdb'])
        self.pm.force_continue, self.pm.auto_pdb = mode == 'continue', (lambda *a: None) if mode == 'pdb' else False
        self.note('run', req, mode, type(self.failing).__name__)
        orig = sys.stdout
        mine = io.StringIO()
        sys.stdout = mine
        self.level, self.printed = 0, []
        self.in_logged = on = bool(self.vals['log_stdout'])
        self.printed_on = True
        stdin = sys.stdin
        sys.stdin = io.StringIO()
        raised = None
        try:
            self.pm.run(req)
        except BaseException as e:
            raised = e
        finally:
            after = sys.stdout
            sys.stdout, sys.stdin = orig, stdin
        ctx.check(after is mine, f'sys.stdout after a run ({mode}, log_stdout={on}, raised {type(raised).__name__}) is '
                                 f'{type(after).__name__}, not the original object', ev='stdout_checks')
        if raised is not None and raised is not self.failing and not isinstance(raised, SystemExit):
            raise raised
        ctx.ev('runs_logged_stdout' if on else 'runs_plain_stdout')
        if on and raised is not None:
            ctx.ev('runs_failing_logged_stdout')
        text = mine.getvalue()
        if not on:
            for m in self.printed:
                ctx.check(text.count(m) == 1, f'{m} was printed {text.count(m)} times without log_stdout')
                self.records[m] = None

    # -- steps -------------------------------------------------------------------
    def note(self, *a):
        self.hist.append(a)
        self.ctx.log('  ' * self.depth, *a)

    def value(self, attr):
        rng = self.rng
        if attr == 'log_stdout':
            return rng.random() < 0.6
        if attr == 'log_folder':
            r = rng.random()
            if r < 0.2:
                return None
            if r < 0.3:
                self.ctx.ev('impossible_folders')
                return os.path.join(self.blocker, rng.choice(['x', 'x/y', '']).rstrip('/')) + '/z'
            return rng.choice(self.folders)
        if attr == 'log_file_rollover_freq':
            return rng.choice(['D', 'H', 'midnight', 'W0'])
        return rng.choice([0, 1, 7])

    def possible(self, attr, v):
        return not (attr == 'log_folder' and v is not None and v.startswith(self.blocker))

    def assign(self, attr, v):
        old = self.vals[attr]
        self.vals[attr] = v
        if attr == 'log_folder':
            now = self.vals['log_file_rollover_freq'].upper(), self.vals['log_file_num_keep']
            # the file may be opened again when the same folder is set again
            self.rolling = {now} if old != v else self.rolling | {now}
        if attr == 'log_folder' and old != v:
            self.changes += 1
            self.ctx.ev('folder_changes')
            if v is None:
                self.ctx.ev('folder_unset')
            elif old is not None:
                self.ctx.ev('folder_switches')
        if attr == 'log_stdout' and old != v:
            self.changes += 1

    def setting(self):
        """Set one or several options; returns what set_option gave."""
        import pyfileconf
        o, rng = pyfileconf.options, self.rng
        attrs = [rng.choice(['log_folder', 'log_folder', 'log_stdout', rng.choice(list(DEFAULTS))])
                 for _ in range(rng.choice([1, 1, 2, 3]))]
        pairs = [(a, self.value(a)) for a in attrs]
        how = rng.randrange(4)
        if how != 1:
            pairs = pairs[:1]
        self.note('set', how, pairs)
        fails = False
        done = []
        for a, v in pairs:
            if not self.possible(a, v):
                fails = True
                break
            done.append((a, v))
        out = None
        try:
            if how == 0:
                out = o.set_option(*pairs[0])
            elif how == 1:
                out = o.set_options(pairs)
            elif how == 2:
                getattr(o, pairs[0][0]).value = pairs[0][1]
            else:
                setattr(o, *pairs[0])
        except Exception as e:
            self.ctx.check(fails, f'setting {pairs} raised {type(e).__name__} {e}')
        else:
            self.ctx.check(not fails, f'setting {pairs} did not raise')
        for a, v in done:
            self.assign(a, v)
        return out if out is not None else o

    def resetting(self):
        import pyfileconf
        o, rng = pyfileconf.options, self.rng
        how = rng.randrange(4)
        attrs = [rng.choice(list(DEFAULTS))] if how in (0, 1) else rng.sample(list(DEFAULTS), rng.randint(0, 4)) \
            if how == 2 else list(DEFAULTS)
        self.note('reset', how, attrs)
        if how == 0:
            getattr(o, attrs[0]).reset()
        elif how == 1:
            o.reset_option(attrs[0])
        elif how == 2:
            o.reset_options(attrs)
        else:
            o.reset()
        for a in attrs:
            self.assign(a, DEFAULTS[a])
        self.ctx.ev('resets')

    def unknown(self):
        import pyfileconf
        self.note('unknown option')
        try:
            if self.rng.random() < 0.5:
                pyfileconf.options.set_option('no_such_option', 1)
            else:
                pyfileconf.options.reset_option('no_such_option')
        except AttributeError:
            self.ctx.ev('unknown_refused')
        else:
            self.ctx.fail('an unknown option was accepted')

    def block(self):
        """A with block."""
        rng, ctx = self.rng, self.ctx
        import pyfileconf
        ctx.ev('with_blocks')
        if self.depth:
            ctx.ev('nested_with')
        end = rng.choice([None, None, Leave(), KeyboardInterrupt(), ValueError()])
        cm = self.setting() if rng.random() < 0.6 else pyfileconf.options
        self.note('with', type(end).__name__)
        self.depth += 1
        if end is not None:
            ctx.ev('with_left_by_exception')
        try:
            with cm as o:
                ctx.check(o is pyfileconf.options, f'with ... as gives {o!r} rather than the options')
                self.settled()
                for _ in range(rng.randint(0, 4)):
                    self.step()
                if end is not None:
                    raise end
        except BaseException as e:
            if e is not end:
                raise
        else:
            ctx.check(end is None, 'leaving the with block lost the exception')
        self.depth -= 1
        self.note('left')
        for a in DEFAULTS:
            self.assign(a, DEFAULTS[a])

    def operation(self):
        """The library's own records."""
        p = self.rng.choice(list(self.pr.items))
        m = self.marker()
        self.note('update', p)
        it = self.pr.items[p]
        key = it.specific['key_attr'] if it.specific else None
        ks = [q.name for q in it.target.params if q.name != key]
        if ks:
            self.pm.update({self.rng.choice(ks): m}, section_path_str=p)
            self.opmarks[m] = self.folder()
            self.ctx.ev('operations_logged')

    def step(self):
        r = self.rng.random()
        if r < 0.35:
            self.setting()
        elif r < 0.47:
            self.resetting()
        elif r < 0.72:
            self.run()
        elif r < 0.76:
            self.unknown()
        elif r < 0.86:
            self.operation()
        elif self.depth < 3:
            self.block()
        self.settled()

    # -- monitors -----------------------------------------------------------------
    def settled(self):
        ctx = self.ctx
        import pyfileconf
        ctx.ev('steps')
        for a, v in self.vals.items():
            got = getattr(pyfileconf.options, a).value
            ctx.check(got == v and type(got) is type(v), f'option {a} is {got!r}, last set {v!r}', ev='options_compared')
        ctx.check(sys.stdout is self.stdout, f'sys.stdout is {sys.stdout!r}', ev='stdout_checks')
        for h in logging.getLogger('pyfileconf').handlers:
            if isinstance(h, TimedRotatingFileHandler):
                ctx.check((h.when.upper(), h.backupCount) in self.rolling, lambda: f'log files roll over at {h.when}, '
                          f'{h.backupCount} are kept; when the folder was set the options were {self.rolling}',
                          ev='rollovers_compared')
        m = self.marker()
        logging.getLogger('pyfileconf').info('record %s', m)
        self.logged(m)
        if self.rng.random() < 0.5:
            self.search()

    def search(self):
        """Every record is where it belongs."""
        found = {}
        for d, _, fs in sorted(os.walk(self.w.root)):
            for f in sorted(fs):
                if f.startswith('pyfileconf.log'):
                    with open(os.path.join(d, f), errors='replace') as fh:
                        found[os.path.join(d, f)] = fh.read()
                    self.ctx.ev('log_files_read')
        for path in found:
            self.ctx.check(os.path.basename(path) == 'pyfileconf.log', f'unexpected log file {path}')
        # split once per file
        import re
        where = {}
        for path, text in found.items():
            for x in re.findall(r'MARK\d{5}END|\v[ \t]{16}\v', text):
                where.setdefault(x, []).append(os.path.dirname(path))
        for m, folder in {**self.records, **self.blanks}.items():
            want = [] if folder is None else [os.path.normpath(folder)]
            self.ctx.check(where.get(m, []) == want, f'record {m!r} is in {where.get(m)}, specified {want}')
        for m, folder in self.opmarks.items():
            # the config is also logged by runs later
            dirs = where.get(m, [])
            self.ctx.check(folder is None or os.path.normpath(folder) in dirs, f'update of {m} was not logged in {folder}')
        self.ctx.ev('records_located', len(self.records))


def run_case(rng, ctx):
    with World('c17') as w:
        c = Case(rng, ctx, w)
        c.opmarks = {}
        c.stdout = sys.stdout
        for _ in range(rng.randint(5, 14)):
            c.step()
        c.search()
        ctx.check(sum(isinstance(h, logging.FileHandler) for h in logging.getLogger('pyfileconf').handlers) ==
                  (c.vals['log_folder'] is not None), 'number of file handlers')
        import pyfileconf
        pyfileconf.options.reset()
        for a in DEFAULTS:
            c.assign(a, DEFAULTS[a])
        c.settled()
        c.search()
        if c.changes > 1:
            ctx.case_key([h[:3] for h in c.hist])
        ctx.state([h[:3] for h in c.hist])
        ctx.sample = {'program': [repr(h)[:150] for h in c.hist]}
