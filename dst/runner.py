"""Runs, workers, shrinking, replay files, evidence.

Every run executes in its own forked child, so that it starts from the same
process state and cannot influence another run: a run is a pure function of
(code, property, choice sequence).
"""
import argparse
import importlib
import json
import os
import pickle
import random
import resource
import select
import signal
import subprocess
import sys
import time
import traceback
from collections import Counter

from . import kernel
from .flow import Refused
from .kernel import Choices, HarnessError, Log, Skip, Violation
from .ref import Reject

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VDAF_REPO', '/repo')
REPLAYS = os.path.join(HERE, 'replays')
HANG_S = 300          # a run normally takes well under two seconds
MEM = 6 << 30


def load(prop):
    return importlib.import_module(f'dst.props.{prop.lower()}')


# ------------------------------------------------------------- one run

class FakeClock:
    def __init__(self):
        self.t = 1_000_000_000_000_000_000

    def ns(self):
        self.t += 1000
        return self.t

    def s(self):
        return self.ns() / 1e9


def seal(salt):
    """Put the ambient sources of nondeterminism under the run's control."""
    n = [0]

    def urandom(k):
        n[0] += 1
        return kernel.expand(f'urandom/{salt}/{n[0]}', k)
    os.urandom = urandom
    random.seed(f'ambient/{salt}')
    random.SystemRandom.random = lambda self: random.random()
    random.SystemRandom.getrandbits = lambda self, k: random.getrandbits(k)
    c = FakeClock()
    for name in ('time', 'monotonic', 'perf_counter', 'process_time'):
        setattr(time, name, c.s)
        setattr(time, name + '_ns', c.ns)


UNUSABLE = (TypeError, ValueError, AttributeError, LookupError,
            ArithmeticError, AssertionError, pickle.PickleError, Refused,
            Reject)


def in_repo(tb):
    return any(f.filename.startswith(REPO + os.sep)
               for f in traceback.extract_tb(tb))


def execute(prop, choices):
    """Run once in this process.  Returns a result dictionary."""
    mod = load(prop)
    log = Log()
    res = {'status': 'ok', 'kind': None, 'detail': ''}
    seal(0)
    try:
        mod.run(choices, log)
    except Violation as e:
        res.update(status='violation', kind=e.kind, detail=e.detail)
    except Skip as e:
        res.update(status='skip', detail=str(e))
    except HarnessError as e:
        res.update(status='harness', detail=traceback.format_exc())
    except BaseException as e:
        if in_repo(e.__traceback__):
            # An operation that has to succeed raised inside the code under
            # test.  Operations that may be refused are wrapped by the
            # property modules and never get here.
            fr = [f for f in traceback.extract_tb(e.__traceback__)
                  if f.filename.startswith(REPO + os.sep)][-1]
            res.update(status='violation',
                       kind=f'exception/{type(e).__name__}',
                       detail=f'{e!r} in {os.path.relpath(fr.filename, REPO)}'
                              f' {fr.name}')
        elif isinstance(e, UNUSABLE):
            # The check could not make sense of what the code returned, or
            # the honest part of a run was refused.
            fr = traceback.extract_tb(e.__traceback__)[-1]
            res.update(status='violation',
                       kind=f'unusable-result/{type(e).__name__}',
                       detail=f'{e!r:.300} at {os.path.basename(fr.filename)}'
                              f':{fr.lineno}')
        else:
            res.update(status='harness', detail=traceback.format_exc())
    if res['status'] == 'violation':
        log.ev('oracle', 'VIOLATION', res['kind'])
    res.update(values=choices.values, digest=log.full.hexdigest(),
               skel=log.skel.hexdigest(), stats=dict(log.stats),
               probes=dict(log.probes), sim_us=log.sim_us, evals=log.evals,
               nlines=len(log.lines))
    res['lines'] = log.lines if res['status'] != 'ok' else log.lines[:3]
    return res


class Child:
    def __init__(self, prop, key, make_choices):
        self.key = key
        self.t0 = time.monotonic()
        self.buf = b''
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            code = 0
            try:
                os.close(r)
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
                devnull = os.open(os.devnull, os.O_WRONLY)
                os.dup2(devnull, 1)
                data = pickle.dumps(execute(prop, make_choices()))
                with os.fdopen(w, 'wb') as f:
                    f.write(data)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        os.close(w)
        self.fd = r

    def finish(self):
        _, st = os.waitpid(self.pid, 0)
        os.close(self.fd)
        if self.buf:
            try:
                return pickle.loads(self.buf)
            except Exception:
                pass
        return {'status': 'harness', 'kind': None, 'values': [],
                'detail': f'child ended with status {st}', 'lines': []}

    def kill(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(self.pid, 0)
        os.close(self.fd)


def run_many(prop, jobs, keys, make_choices, limit=HANG_S):
    """Yield (key, result) in the order of keys; stops early when the consumer
    closes the generator."""
    live = {}
    done = {}
    keys = list(keys)
    nxt = out = 0
    try:
        while out < len(keys):
            while nxt < len(keys) and len(live) < jobs \
                    and nxt - out < jobs * 4:
                k = keys[nxt]
                c = Child(prop, nxt, lambda: make_choices(k))
                live[c.fd] = c
                nxt += 1
            rd, _, _ = select.select(list(live), [], [], 5)
            for fd in rd:
                c = live[fd]
                data = os.read(fd, 1 << 16)
                if data:
                    c.buf += data
                else:
                    del live[fd]
                    done[c.key] = c.finish()
            now = time.monotonic()
            for fd, c in list(live.items()):
                if now - c.t0 > limit:
                    del live[fd]
                    c.kill()
                    done[c.key] = {
                        'status': 'violation', 'kind': 'hang',
                        'detail': f'run did not end within {limit} s',
                        'values': None, 'lines': []}
            while out < len(keys) and out in done:
                yield keys[out], done.pop(out)
                out += 1
    finally:
        for c in live.values():
            c.kill()


# ------------------------------------------------------------- shrinking

def shrink(prop, jobs, values, kind, wall=75, budget=3000):
    """Minimise the choice sequence, keeping the kind of violation."""
    t0 = time.monotonic()
    best = list(values)
    runs = 0

    def trial(cands):
        """First candidate (in order) that still fails, or None."""
        nonlocal runs
        g = run_many(prop, jobs, range(len(cands)),
                     lambda i: Choices(replay=cands[i]),
                     limit=HANG_S if kind == 'hang' else 12)
        try:
            for i, res in g:
                runs += 1
                if res['status'] == 'violation' and res['kind'] == kind:
                    vals = res['values']
                    while vals and vals[-1] == 0:
                        vals = vals[:-1]
                    return vals
                if time.monotonic() - t0 > wall:
                    return None
        finally:
            g.close()
        return None

    def better(a, b):
        return (len(a), sum(min(x, 1 << 20) for x in a)) < \
            (len(b), sum(min(x, 1 << 20) for x in b))

    progress = True
    while progress and time.monotonic() - t0 < wall and runs < budget:
        progress = False
        size = max(1, len(best) // 2)
        while size >= 1 and time.monotonic() - t0 < wall and runs < budget:
            cands = []
            for s in range(0, len(best), size):
                cands.append(best[:s] + best[s + size:])
            for s in range(0, len(best), size):
                if any(best[s:s + size]):
                    z = best[:s] + [0] * len(best[s:s + size]) \
                        + best[s + size:]
                    while z and z[-1] == 0:
                        z.pop()
                    cands.append(z)
            got = trial(cands[:400])
            if got is not None and better(got, best):
                best = got
                progress = True
                size = min(size, max(1, len(best) // 2))
            else:
                size //= 2
        cands = []
        for i, x in enumerate(best[:200]):
            for y in {x // 2, x - 1}:
                if 0 <= y < x:
                    cands.append(best[:i] + [y] + best[i + 1:])
        got = trial(cands[:400])
        if got is not None and better(got, best):
            best = got
            progress = True
    return best, runs


# ------------------------------------------------------------- commands

def known_findings(prop):
    out = []
    path = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith('known: property=%s ' % prop):
                    rest = line.split(None, 2)[2]
                    kind, what = rest.split(None, 1)
                    out.append((kind.removeprefix('kind='), what.strip()))
    return out


def choices_for(mod, prop, seed, i):
    ch = Choices(seed=f'{prop}/{seed}/{i}')
    if hasattr(mod, 'prefix'):
        ch.forced = list(mod.prefix(i))
    return ch


def report_harness(prop, key, res):
    print(f'HARNESS-ERROR property={prop} run={key}')
    print(res['detail'])
    return 2


def cmd_check(prop, tier, seed, runs, jobs):
    t0 = time.monotonic()
    mod = load(prop)
    n = runs or mod.RUNS[tier]
    known = known_findings(prop)
    stats, probes = Counter(), Counter()
    digests, skels = set(), set()
    evals = sim_us = skips = executed = 0
    samples = []
    hit = broken = None
    found_known = set()

    def make(i):
        return choices_for(mod, prop, seed, i)

    g = run_many(prop, jobs, range(n), make)
    for i, res in g:
        if res['status'] == 'harness':
            # Remembered, but a violation found elsewhere still counts.
            broken = broken or (i, res)
            continue
        executed += 1
        if res['status'] == 'violation':
            match = [w for k, w in known if k == res['kind']]
            if match:
                found_known.add(match[0])
                continue
            hit = (i, res)
            g.close()
            break
        if res['status'] == 'skip':
            skips += 1
            continue
        stats.update(res['stats'])
        probes.update(res['probes'])
        evals += res['evals']
        sim_us += res['sim_us']
        if res['evals']:
            digests.add(res['digest'])
            skels.add(res['skel'])
        if len(samples) < 5 and res['lines']:
            samples.append({'run': i, 'events': res['nlines'],
                            'log_head': res['lines'], 'digest': res['digest'],
                            'faults': res['stats']})
    search_s = time.monotonic() - t0
    violations = []
    rc = 0
    if hit:
        i, res = hit
        path, small = report_violation(prop, i, res, jobs)
        violations.append({'run': i, 'kind': res['kind'],
                           'detail': res['detail'], 'replay': path})
        rc = 1
    elif broken:
        return report_harness(prop, *broken)
    # Probes: situations the check means to reach.
    unreached = [] if hit or runs else [
        name for name in getattr(mod, 'MUST_REACH', ())
        if not probes.get(name) and not stats.get(name)]
    for name in unreached:
        print(f'NOTE property={prop} situation never reached: {name}')
    for w in sorted(found_known):
        print(f'KNOWN-FINDING: property={prop} {w}')
    wall = time.monotonic() - t0
    ev = {
        'property': prop, 'tier': tier, 'seed': int(seed),
        'level': 'exploration',
        'coverage': {
            'evaluations': evals,
            'distinct_nontrivial': len(digests),
            'rule': ('evaluations = oracle decisions taken (see oracle); '
                     'distinct_nontrivial = runs whose complete event log '
                     '(configuration, schedule, faults, outcomes) differs '
                     'from every other run and in which the oracle decided '
                     'at least once. ' + getattr(mod, 'RULE', '')),
            'samples': samples,
            'runs': executed, 'runs_without_decision': skips,
            'runs_per_hour': round(executed / max(search_s, 1e-6) * 3600),
            'distinct_interleavings': len(skels),
            'interleaving_measure': 'digest of the (actor, event kind) '
                                    'sequence of a run',
            'simulated_seconds': round(sim_us / 1e6, 3),
            'faults_injected': dict(sorted(stats.items())),
            'situations_reached': dict(sorted(probes.items())),
            'situations_missed': unreached,
            'real_components': mod.REAL, 'stub_components': mod.STUB,
            'workers': jobs,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'violations': len(violations), 'violation_list': violations,
        'wall_s': round(wall, 2),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')
    print(f'{prop} {tier}: {executed} runs, {evals} decisions, '
          f'{len(skels)} interleavings, {sum(stats.values())} faults, '
          f'{sim_us / 1e6:.1f} simulated s, {wall:.1f} s')
    if hit:
        print(f'VIOLATION property={prop} replay={violations[0]["replay"]}')
    return rc


def report_violation(prop, i, res, jobs):
    kind = res['kind']
    print(f'run {i}: {kind}: {res["detail"]}')
    values = res['values']
    small, n = (values, 0)
    if values is not None:
        small, n = shrink(prop, jobs, values, kind)
        g = run_many(prop, 1, [0], lambda _: Choices(replay=small))
        final = next(g)[1]
        g.close()
        if final.get('kind') != kind:
            final, small = res, values
    else:
        final = res
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, f'{prop}-{i}.json')
    with open(path, 'w') as f:
        json.dump({'property': prop, 'run': i, 'kind': kind,
                   'detail': final['detail'], 'choices': small,
                   'original_choices': None if values is None else
                   len(values),
                   'shrink_executions': n, 'digest': final.get('digest'),
                   'trace': final['lines']}, f, indent=1)
    for line in final['lines'][-25:]:
        print('   ', line[:200])
    print(f'minimised: {len(small or [])} choices '
          f'(from {len(values or [])}, {n} executions)')
    if values is not None:
        r = subprocess.run(
            [sys.executable, os.path.join(HERE, 'check.py'), 'replay', path],
            capture_output=True, text=True, timeout=600)
        same = r.returncode == 1 and 'REPRODUCED' in r.stdout
        print('replay in a fresh process: '
              + ('reproduced exactly' if same else 'DIFFERS'))
    return path, small


def cmd_replay(path, verbose):
    with open(path) as f:
        d = json.load(f)
    if d['choices'] is None:
        print('no recorded choices (the run never ended)')
        return 2
    g = run_many(d['property'], 1, [0], lambda _: Choices(replay=d['choices']))
    res = next(g)[1]
    g.close()
    if verbose:
        for line in res['lines']:
            print('   ', line[:300])
    print(res['status'], res['kind'], res['detail'])
    if res['status'] == 'violation' and res['kind'] == d['kind'] and \
            res['digest'] == d['digest']:
        print('REPRODUCED')
        print(f'VIOLATION property={d["property"]} replay={path}')
        return 1
    if res['status'] == 'violation':
        print(f'VIOLATION property={d["property"]} replay={path}')
        return 1
    return 2 if res['status'] == 'harness' else 0


def cmd_digests(prop, seed, lo, hi, jobs):
    mod = load(prop)

    def make(i):
        return choices_for(mod, prop, seed, i)
    for i, res in run_many(prop, jobs, range(lo, hi), make):
        print(i, res['status'], res.get('digest'), len(res['values']),
              res.get('sim_us'))
    return 0


def cmd_selftest(props, seed, runs, jobs):
    """The same runs give the same event logs: in one worker and in many,
    under different hash seeds, starting anywhere in the sequence."""
    here = os.path.join(HERE, 'dst', 'props')
    props = props or sorted(f[:-3].upper() for f in os.listdir(here)
                            if f[0] == 'v' and f.endswith('.py'))
    bad = 0
    for prop in props:
        outs = []
        for hs, j, cut in (('0', 1, 0), ('12345', jobs, 0),
                           ('987', 3, runs // 2)):
            lines = []
            for lo, n in ((cut, runs - cut), (0, cut)):
                if n:
                    lines += subprocess.run(
                        [sys.executable, os.path.join(HERE, 'check.py'),
                         'digests', prop, '--seed', str(seed), '--from',
                         str(lo), '--runs', str(n), '--jobs', str(j)],
                        env=dict(os.environ, PYTHONHASHSEED=hs),
                        capture_output=True, text=True,
                        check=True).stdout.splitlines()
            outs.append(sorted(lines))
        same = outs[0] == outs[1] == outs[2] and len(outs[0]) == runs
        bad += not same
        print(f'{prop}: {runs} runs x 3: '
              + ('identical' if same else 'DIFFERENT'), flush=True)
    return 2 if bad else 0


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('what')
    ap.add_argument('file', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--from', dest='lo', type=int, default=0)
    ap.add_argument('--jobs', type=int, default=os.cpu_count() or 1)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    if a.what == 'setup':
        from . import cfg  # noqa: F401  (the code under test is importable)
        print('ready')
        return 0
    if a.what == 'replay':
        return cmd_replay(a.file, a.v)
    if a.what == 'digests':
        return cmd_digests(a.file, a.seed, a.lo, a.lo + (a.runs or 20),
                           a.jobs)
    if a.what == 'selftest':
        return cmd_selftest(a.file and [a.file], a.seed, a.runs or 40, a.jobs)
    return cmd_check(a.what, a.tier, int(a.seed), a.runs, a.jobs)
