"""C22: what happens depends on the project and the operations only."""
import os

from pfcmon.core import Inconclusive
from pfcmon.perturb import BASE, VARIANTS, Server

ID = 'C22'
TECHNIQUE = ('runtime monitoring: transcripts of the same randomised executions of the real code recorded in '
             'interpreters in different environments, compared offline')
WORKLOADS = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15',
             'C16', 'C17', 'C18', 'C19', 'C20', 'C21']
# The order in which several dependents of one item are brought up to date is not specified
UNORDERED = {'C08', 'C09', 'C15'}
RULE = ('Random cases of the workloads of all the other checks (projects, histories of every operation, failures, '
        'interruptions) are executed by two interpreters: a plain one, and one which differs in hash seed, order of '
        'directory listings, locale encoding, -O or -X dev, timing of garbage collection, place and name of the '
        'project\'s folder (also relative, or a symbolic link), working directory or what was done with other managers before. Each records the operations '
        'and what they gave, every call and construction with its arguments, every change hook with its arguments, '
        'and at the end every file byte for byte; the two transcripts must be equal (for workloads with several '
        'dependents of one item, without the calls and hooks, as the order of bringing them up to date is not '
        'specified). Non-trivial: user code was called or files written; distinct by workload and transcript.')
ASSUMPTIONS = ['names of temporary files left over by an interrupted process do not count',
               'modules of the user do not depend on their environment themselves',
               'the order in which several dependents of one item are brought up to date is not specified']
REQUIRED = {'transcript_lines': 20000, 'files_compared': 3000, 'calls_compared': 5000, 'constructions_compared': 500,
            'changes_compared': 500, **{f'under {v}': 15 for v in VARIANTS}, **{f'workload {p}': 8 for p in WORKLOADS}}
CASES = {'quick': 800, 'thorough': 6000}
SERVERS = {}
# Workloads which handle the aspect of the environment themselves (files are looked up by their real path; relative log
# folders)
NOT = {('C19', 'a symbolic link to the folder'), ('C17', 'another working directory and interpreter flags')}


def server(name):
    key = os.getpid(), name
    if key not in SERVERS:
        SERVERS[key] = Server(BASE if name is None else VARIANTS[name],
                              os.path.join(os.environ['PFC_SCRATCH'], f'{os.getpid()}-{len(SERVERS)}'))
    return SERVERS[key]


def forget(name):
    s = SERVERS.pop((os.getpid(), name), None)
    if s is not None:
        s.close()


def run_case(rng, ctx):
    # workloads and environments in turn, to have all combinations
    pid = rng.choice(WORKLOADS)
    name = rng.choice([v for v in VARIANTS if (pid, v) not in NOT])
    index, seed = rng.randrange(10 ** 6), rng.randrange(10 ** 6)
    flavour = 'not ASCII' if 'locale' in name or rng.random() < 0.2 else None
    try:
        a = server(None).run(pid, seed, index, ctx.tier, flavour)
        b = server(name).run(pid, seed, index, ctx.tier, flavour)
    except BaseException:
        forget(None)
        forget(name)
        raise
    ctx.log(f'python3 run_check.py {pid} --seed {seed} --index {index}', 'under', name, flavour or '')
    if a is None or b is None:
        forget(None)
        forget(name)
        raise Inconclusive(f'an interpreter died executing {pid} {seed} {index} under {name}')
    if 'inconclusive' in (a['status'], b['status']):
        raise Inconclusive(f'{a["message"]} {b["message"]}')
    if a['status'] != 'ok' and a['status'] == b['status']:
        # the matter of the other check
        ctx.ev('cases_failing_alike')
    x, y = a['transcript'], b['transcript']
    if pid in UNORDERED:
        x, y = ([z for z in t if z.startswith(('status ', 'log ', 'file '))] for t in (x, y))
    if pid == 'C19' and 'listing' in VARIANTS[name]:
        # how far an interrupted or failed load came depends on the order of the files
        x, y = ([z for z in t if not z.startswith('file ')] for t in (x, y))
    for i in range(max(len(x), len(y))):
        p, q = (x[i] if i < len(x) else '(nothing)'), (y[i] if i < len(y) else '(nothing)')
        ctx.check(p == q, lambda: f'a case of {pid} under {name} differs:\n  {p[:1500]!r}\n  {q[:1500]!r}',
                  ev='transcript_lines')
    for kind, ev in (('file ', 'files_compared'), ('call ', 'calls_compared'),
                     ('construct ', 'constructions_compared'), ('pre change ', 'changes_compared')):
        ctx.ev(ev, sum(1 for z in x if z.startswith(kind)))
    ctx.ev(f'under {name}')
    ctx.ev(f'workload {pid}')
    ctx.state(pid, name)
    if a['events']:
        ctx.case_key(pid, x)
    ctx.sample = {'workload': pid, 'environment': name, 'transcript': [z[:200] for z in x[:20]]}
