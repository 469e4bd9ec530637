"""Engine shared by every check: case scheduling, verdicts, evidence, replay.

A check module provides
    ID, RULE, ASSUMPTIONS          strings
    REQUIRED                       {event name: minimum count} the monitors must have observed
    CASES                          {'quick': n, 'thorough': n}
    run_case(rng, ctx)             one randomly generated execution under observation
    probes(ctx)       (optional)   deterministic executions run once, before the random ones

Verdicts are three valued: exit 0 held on what was observed, exit 1 violated (with a
VIOLATION line and a replay file), exit 2 inconclusive (the deciding monitors were not
reached, cases timed out, or the harness itself failed).
"""
import argparse
import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import queue as queue_mod
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_TIMEOUT = 240           # seconds of wall clock, inconclusive when it fires
CPU_LIMIT = 60               # seconds of processor time; a case needs a few at most, so it does not terminate
BUDGET = {'quick': 420, 'thorough': 620}   # soft cap on the sum of the run


class Violation(Exception):
    def __init__(self, message, key=None):
        super().__init__(message)
        self.key = key


class Inconclusive(BaseException):
    pass


class CaseTimeout(Inconclusive):
    pass


class DoesNotTerminate(BaseException):
    pass


class Ctx:
    """What a case reports to: counters of observed events, distinct states, a trace."""

    def __init__(self, tier):
        self.tier = tier
        self.events = collections.Counter()
        self.states = set()
        self.lines = []
        self.known = []
        self.sample = None
        self.nontrivial_keys = []

    def ev(self, name, n=1):
        self.events[name] += n

    def state(self, *key):
        h = hashlib.blake2b(repr(key).encode('utf8', 'replace'), digest_size=8).digest()
        self.states.add(h)

    def case_key(self, *key):
        """Identify this case for the distinct_nontrivial count."""
        h = hashlib.blake2b(repr(key).encode('utf8', 'replace'), digest_size=8).digest()
        self.nontrivial_keys.append(h)

    def log(self, *parts):
        self.lines.append(' '.join(str(p) for p in parts))

    def fail(self, message, key=None):
        raise Violation(message, key)

    def check(self, ok, message, key=None, ev='assertions'):
        self.events[ev] += 1
        if not ok:
            raise Violation(message() if callable(message) else message, key)

    def eq(self, got, want, what, key=None, ev='assertions'):
        from pfcmon.util import same
        self.events[ev] += 1
        if not same(got, want):
            raise Violation(f'{what}: observed {_short(got)}, specified {_short(want)}', key)


def _short(x, n=1500):
    try:
        r = repr(x)
    except Exception as e:
        r = f'<unreprable {type(x)}: {e}>'
    return r if len(r) <= n else r[:n] + '...'


# --------------------------------------------------------------------------
# known findings
# --------------------------------------------------------------------------
def load_known():
    out = {}
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if not os.path.exists(path):
        return out
    with open(path) as f:
        for line in f:
            line = line.strip()
            if not line.startswith('finding:'):
                continue
            parts = line[len('finding:'):].strip().split(None, 2)
            prop = parts[0].split('=', 1)[1]
            key = parts[1].split('=', 1)[1]
            out[(prop, key)] = parts[2] if len(parts) > 2 else ''
    return out


# --------------------------------------------------------------------------
# reach: which lines of the code under test did this run execute
# --------------------------------------------------------------------------
class Reach:
    def __init__(self):
        from pfcmon.world import REPO
        self.prefix = os.path.join(os.path.realpath(REPO), 'pyfileconf') + os.sep
        self.lines = set()
        self.on = False

    def start(self):
        mon = getattr(sys, 'monitoring', None)
        if mon is None:
            return
        tool = mon.COVERAGE_ID
        try:
            mon.use_tool_id(tool, 'pfcmon')
        except ValueError:
            return
        self.on = True

        def line(code, lineno):
            fn = code.co_filename
            if fn.startswith(self.prefix):
                self.lines.add((fn[len(self.prefix):], lineno))
            return mon.DISABLE

        mon.register_callback(tool, mon.events.LINE, line)
        mon.set_events(tool, mon.events.LINE)


# --------------------------------------------------------------------------
# running cases
# --------------------------------------------------------------------------
def case_rng(seed, pid, index):
    return random.Random(f'{seed}:{pid}:{index}')


FIRED = []


def _on_alarm(*_):
    FIRED.append('alarm')
    raise CaseTimeout('case watchdog')


def _on_cpu(*_):
    FIRED.append('cpu')
    raise DoesNotTerminate(f'the case used more than {CPU_LIMIT} seconds of processor time')


def run_one(mod, seed, index, tier):
    """Returns (status, ctx, message, key); status in ok / violation / known / inconclusive"""
    ctx = Ctx(tier)
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT, 20)
    signal.signal(signal.SIGPROF, _on_cpu)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT, 5)
    FIRED.clear()
    try:
        out = _run_one(mod, seed, index, ctx)
    except BaseException:
        if not FIRED:
            raise
        out = None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.setitimer(signal.ITIMER_PROF, 0)
    if 'cpu' in FIRED:
        return 'violation', ctx, f'did not terminate within {CPU_LIMIT} seconds of processor time: {out and out[2]}', None
    if FIRED and (out is None or out[0] != 'inconclusive'):
        return 'inconclusive', ctx, 'case watchdog', None
    return out


def _run_one(mod, seed, index, ctx):
    try:
        if index < 0:
            mod.probes(ctx)
        else:
            mod.run_case(case_rng(seed, mod.ID, index), ctx)
        return 'ok', ctx, None, None
    except Violation as v:
        return 'violation', ctx, str(v), v.key
    except Inconclusive as e:
        return 'inconclusive', ctx, f'{type(e).__name__}: {e}\n{traceback.format_exc()}', None
    except MemoryError as e:
        return 'inconclusive', ctx, f'MemoryError {e}', None
    except BaseException as e:
        if isinstance(e, OSError) and getattr(e, 'errno', None) in (28, 24, 12):
            return 'inconclusive', ctx, traceback.format_exc(), None
        tb = traceback.format_exc()
        return 'violation', ctx, f'unexpected {type(e).__name__}: {_short(str(e), 600)}\n{tb}', None


def _worker(modname, seed, tier, wid, nworkers, ncases, deadline, stop, out, scratch):
    os.environ['PFC_SCRATCH'] = scratch
    sys.setrecursionlimit(3000)
    mod = importlib.import_module(modname)
    reach = Reach()
    reach.start()
    tot = collections.Counter()
    states = set()
    keys = set()
    samples = []
    n = 0
    bad = []
    inconc = []
    known = collections.Counter()
    known_keys = load_known()
    indices = list(range(wid, ncases, nworkers))
    if wid == 0 and hasattr(mod, 'probes'):
        indices.insert(0, -1)
    for index in indices:
        if stop.is_set() or (time.time() > deadline and n > 0):
            break
        status, ctx, msg, key = run_one(mod, seed, index, tier)
        n += 1
        tot.update(ctx.events)
        states |= ctx.states
        if ctx.nontrivial_keys:
            keys.add(b''.join(ctx.nontrivial_keys))
        for k in ctx.known:
            known[k] += 1
        if status == 'ok':
            if len(samples) < 2 and ctx.sample is not None:
                samples.append({'index': index, 'case': ctx.sample})
        elif status == 'inconclusive':
            inconc.append((index, msg))
            if len(inconc) > 5:
                break
        else:
            if key is not None and (mod.ID, key) in known_keys:
                known[key] += 1
                continue
            bad.append(dict(index=index, message=msg, key=key, trace=ctx.lines[-400:]))
            stop.set()
            break
    out.put(dict(n=n, events=dict(tot), states=states, keys=keys, samples=samples, bad=bad,
                 inconc=inconc, known=dict(known), lines=reach.lines, planned=len(indices)))


def selfcheck():
    """The framework needs no build: check that the library and every check import."""
    from pfcmon.world import bootstrap
    bootstrap()
    d = os.path.join(VERIF, 'pfcmon', 'checks')
    for f in sorted(os.listdir(d)):
        if f.startswith('c') and f.endswith('.py'):
            importlib.import_module(f'pfcmon.checks.{f[:-3]}')
    print('ok')
    return 0


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('pid', nargs='?')
    ap.add_argument('--selfcheck', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=None)
    ap.add_argument('--cases', type=int, default=None)
    ap.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--replay', default=None)
    ap.add_argument('--index', type=int, default=None)
    args = ap.parse_args(argv)
    if args.selfcheck:
        return selfcheck()
    t0 = time.time()
    seed = args.seed if args.seed is not None else int(os.environ.get('VERIF_SEED', '1') or 1)
    pid = args.pid
    modname = f'pfcmon.checks.{pid.lower()}'

    from pfcmon.world import bootstrap
    try:
        bootstrap()
        mod = importlib.import_module(modname)
    except BaseException:
        # The library can no longer be imported at all
        traceback.print_exc()
        print(f'INCONCLUSIVE property={pid} could not import the code under test or the check')
        return 2

    scratch = tempfile.mkdtemp(prefix=f'pfcmon_{pid}_')
    try:
        if args.replay or args.index is not None:
            if args.replay:
                with open(args.replay) as f:
                    rp = json.load(f)
                seed, index = rp['seed'], rp['index']
            else:
                index = args.index
            os.environ['PFC_SCRATCH'] = scratch
            status, ctx, msg, key = run_one(mod, seed, index, args.tier)
            print('\n'.join(ctx.lines))
            print(status, msg or '', f'key={key}' if key else '')
            return {'ok': 0, 'violation': 1}.get(status, 2)
        return _run(mod, modname, pid, args, seed, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _run(mod, modname, pid, args, seed, t0, scratch):
    tier = args.tier
    ncases = args.cases or mod.CASES[tier]
    deadline = t0 + BUDGET[tier]
    mpc = mp.get_context('fork')
    stop = mpc.Event()
    out = mpc.Queue()
    procs = [
        mpc.Process(target=_worker,
                    args=(modname, seed, tier, w, args.workers, ncases, deadline, stop, out, scratch))
        for w in range(args.workers)
    ]
    sys.stdout.flush()
    for p in procs:
        p.start()
    results = []
    hard = deadline + CASE_TIMEOUT + 20
    dead_since = None
    while len(results) < len(procs) and time.time() < hard:
        try:
            results.append(out.get(timeout=1.0))
        except queue_mod.Empty:
            if not any(p.is_alive() for p in procs):
                if dead_since is None:
                    dead_since = time.time()
                elif time.time() - dead_since > 3:
                    break
    for p in procs:
        p.join(timeout=2)
        if p.is_alive():
            p.kill()
    lost = len(procs) - len(results)

    events = collections.Counter()
    states, keys, lines = set(), set(), set()
    samples, bad, inconc = [], [], []
    known = collections.Counter()
    n = 0
    for r in results:
        n += r['n']
        events.update(r['events'])
        states |= r['states']
        keys |= r['keys']
        lines |= r['lines']
        samples += r['samples']
        bad += r['bad']
        inconc += r['inconc']
        known.update(r['known'])
    samples = samples[:6]

    known_keys = load_known()
    known_bad = [k for k in known if (pid, k) not in known_keys]
    missing = {k: v for k, v in mod.REQUIRED.items() if events.get(k, 0) < v}

    evidence = dict(
        property=pid, tier=tier, seed=seed, level='exploration',
        coverage=dict(
            evaluations=n,
            distinct_nontrivial=len(keys),
            rule=mod.RULE,
            samples=samples,
            events_observed=dict(sorted(events.items())),
            distinct_states=len(states),
            repo_lines_reached=len(lines),
            repo_files_reached=len({f for f, _ in lines}),
            required_events=mod.REQUIRED,
            inconclusive_cases=len(inconc),
            known_findings_seen=dict(known),
        ),
        assumptions=mod.ASSUMPTIONS,
        wall_s=round(time.time() - t0, 2),
        violations=len(bad) + len(known_bad),
    )
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=str)
        f.write('\n')

    for k in sorted(known):
        if (pid, k) in known_keys:
            print(f'KNOWN-FINDING: property={pid} {k}: {known_keys[(pid, k)]}')
    if bad:
        bad.sort(key=lambda b: b['index'])
        b = bad[0]
        rdir = os.path.join(VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        rpath = os.path.join(rdir, f'{pid}-{seed}-{b["index"]}.json')
        with open(rpath, 'w') as f:
            json.dump(dict(property=pid, seed=seed, tier=tier, **b), f, indent=1, default=str)
            f.write('\n')
        print(b['message'])
        for ln in b['trace'][-25:]:
            print('   |', ln)
        print(f'VIOLATION property={pid} replay={rpath}')
        return 1
    print(f'{pid} {tier}: {n} executions, {len(keys)} distinct, {sum(events.values())} events, '
          f'{len(states)} states, {len(lines)} repo lines, {len(inconc)} inconclusive, '
          f'{time.time() - t0:.1f}s')
    print('   ' + ', '.join(f'{k}={v}' for k, v in sorted(events.items())))
    if inconc:
        print(f'INCONCLUSIVE property={pid} {len(inconc)} cases gave no verdict, first: '
              f'index={inconc[0][0]} {inconc[0][1]}')
    if lost:
        print(f'INCONCLUSIVE property={pid} {lost} workers died')
        return 2
    if missing:
        print(f'INCONCLUSIVE property={pid} monitors not reached: {missing}')
        return 2
    if len(inconc) > max(3, n // 50):
        return 2
    return 0
