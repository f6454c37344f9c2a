"""Choice sequence, virtual time, network, disks and faults.

A run is a pure function of its choice sequence.  Every decision (configuration,
measurement, randomness, latency, fault, crash point) goes through `Choices`.
The value 0 always stands for the simplest alternative (no fault, shortest
latency, smallest parameter), which is what the shrinker moves towards.
"""
import hashlib
import heapq
import random
import sys
import threading
from collections import Counter


class Violation(Exception):
    """The property does not hold in this run."""

    def __init__(self, kind, detail=''):
        super().__init__(f'{kind}: {detail}' if detail else kind)
        self.kind = kind
        self.detail = detail


class HarnessError(Exception):
    """The machinery itself is at fault."""


class Skip(Exception):
    """The drawn configuration has nothing to check (counted, never silent)."""


def check(cond, kind, detail=''):
    if not cond:
        if callable(detail):
            try:
                detail = detail()
            except Exception as e:
                detail = f'(no detail: {e!r})'
        raise Violation(kind, str(detail))


class Choices:
    def __init__(self, seed=None, replay=None):
        self.replay = None if replay is None else list(replay)
        self.rng = random.Random(f'vdaf-dst/{seed}')
        self.values = []
        self.forced = []        # stratification: first choices of a run
        self.limit = 400_000

    def draw(self, n):
        """An integer in [0, n)."""
        if n <= 1:
            return 0
        i = len(self.values)
        if i >= self.limit:
            raise Violation('no-end', 'choice limit exceeded')
        if self.replay is None:
            v = min(self.forced[i], n - 1) if i < len(self.forced) \
                else self.rng.randrange(n)
        elif i < len(self.replay):
            v = min(self.replay[i], n - 1)
        else:
            v = 0
        self.values.append(v)
        return v

    def chance(self, per_mille):
        """True with the given probability; 0 means False."""
        if per_mille <= 0:
            return False
        return self.draw(1000) >= 1000 - per_mille

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def weighted(self, pairs):
        """pairs: [(item, weight)], the simplest first."""
        total = sum(w for _, w in pairs)
        v = self.draw(total)
        for item, w in pairs:
            if v < w:
                return item
            v -= w
        raise AssertionError

    def between(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def shuffle(self, seq):
        """Permutation; all-zero choices leave the order unchanged."""
        seq = list(seq)
        out = []
        while seq:
            out.append(seq.pop(self.draw(len(seq))))
        return out

    def subset(self, seq, per_mille=500):
        return [x for x in seq if self.chance(per_mille)]

    def blob(self, n, tag=''):
        """n bytes.  Mostly pseudorandom; sometimes degenerate patterns."""
        kind = self.draw(32)
        if kind == 31:
            return bytes(n)
        if kind == 30:
            return b'\xff' * n
        if kind == 29:
            return bytes(i % 256 for i in range(n))
        v = self.draw(1 << 32)
        return expand(f'{tag}/{v}', n)

    def fresh(self, n, tag):
        """n pseudorandom bytes, never degenerate."""
        return expand(f'{tag}/{self.draw(1 << 32)}', n)


def expand(label, n):
    return hashlib.shake_128(label.encode()).digest(n) if n else b''


# ------------------------------------------------------------------ run log

class Log:
    """Event log of a run.  Its digest identifies the execution; the digest of
    the (actor, event) skeleton identifies the interleaving."""

    def __init__(self):
        self.lines = []
        self.full = hashlib.blake2b(digest_size=16)
        self.skel = hashlib.blake2b(digest_size=16)
        self.stats = Counter()     # faults injected, by kind
        self.probes = Counter()    # situations reached
        self.sim_us = 0
        self.evals = 0             # property evaluations

    def ev(self, who, what, detail=''):
        line = f'{who} {what} {detail}'
        self.lines.append(line)
        self.full.update(line.encode() + b'\n')
        self.skel.update(f'{who} {what}\n'.encode())

    def fault(self, kind, who='', detail=''):
        self.stats[kind] += 1
        self.ev(who or 'fault', '!' + kind, detail)

    def probe(self, name, n=1):
        self.probes[name] += n

    def ok(self, n=1):
        self.evals += n


def h8(data):
    if not isinstance(data, (bytes, bytearray)):
        data = repr(data).encode()
    return hashlib.blake2b(data, digest_size=4).hexdigest()


# ------------------------------------------------------------------ faults

FAULTS = ('drop', 'dup', 'delay', 'partition', 'crash', 'crash_point', 'stall',
          'skew', 'disk_error', 'disk_torn', 'disk_lost', 'misdirect',
          'replay')


class FaultPlan:
    """Per-run fault rates (swarm style: each kind is on or off per run)."""

    def __init__(self, ch, allowed=FAULTS, force_none=False):
        self.rate = {}
        if force_none or ch.chance(150):
            return
        level = ch.weighted([(1, 3), (2, 3), (4, 2)])
        for k in allowed:
            if ch.chance(500):
                self.rate[k] = level * {
                    'drop': 60, 'dup': 60, 'delay': 100, 'partition': 250,
                    'crash': 250, 'crash_point': 15, 'stall': 200,
                    'skew': 250, 'disk_error': 15, 'disk_torn': 120,
                    'disk_lost': 120, 'misdirect': 20, 'replay': 30,
                }[k]

    def get(self, k):
        return min(self.rate.get(k, 0), 900)


class Crash(Exception):
    pass


class DiskError(Exception):
    pass


class Disk:
    """Key-value store with un-synced writes.  After a crash every un-synced
    write independently survives, is lost, or is torn (detectably)."""

    def __init__(self, sim, name):
        self.sim, self.name = sim, name
        self.synced = {}
        self.pending = []       # ordered list of {key: value}

    def write(self, key, value, sync=True):
        self.write_many({key: value}, sync)

    def write_many(self, kv, sync=True):
        """One atomic group."""
        s = self.sim
        if s.faulty and s.ch.chance(s.plan.get('disk_error')):
            s.log.fault('disk_error', self.name)
            raise DiskError(self.name)
        s.crash_point(self.name)
        self.pending.append(dict(kv))
        if sync:
            self.sync()
        s.crash_point(self.name)

    def sync(self):
        for kv in self.pending:
            self.synced.update(kv)
        self.pending = []

    def read(self, key):
        for kv in reversed(self.pending):
            if key in kv:
                return kv[key]
        return self.synced.get(key)

    def keys(self, prefix=''):
        ks = set(self.synced)
        for kv in self.pending:
            ks.update(kv)
        return sorted(k for k in ks
                      if k.startswith(prefix) and self.read(k) is not None)

    def on_crash(self):
        s = self.sim
        for kv in self.pending:
            if s.ch.chance(max(s.plan.get('disk_torn'), 100)):
                # Checksummed records: a torn record reads as absent.
                s.log.fault('disk_torn', self.name)
                continue
            if s.ch.chance(max(s.plan.get('disk_lost'), 300)):
                s.log.fault('disk_lost', self.name)
                continue
            self.synced.update(kv)
        self.pending = []


class Sim:
    """Discrete event simulation.  Time is in microseconds."""
    LATENCY = (200, 2_000, 20_000)

    def __init__(self, ch, log, plan, heal_at=2_000_000, max_events=60_000):
        self.ch, self.log, self.plan = ch, log, plan
        self.now = 0
        self.queue = []
        self.n = 0
        self.nodes = {}
        self.heal_at = heal_at
        self.faulty = bool(plan.rate)
        self.max_events = max_events
        self.events = 0
        self.current = None
        self.cuts = []          # (start, end, frozenset of names)
        self.old = []           # messages available for replay

    # -- setup
    def add(self, node):
        node.sim = self
        node.disk = Disk(self, node.name)
        node.up = True
        node.epoch = 0
        node.stalled_until = 0
        node.skew = 1000
        self.nodes[node.name] = node
        return node

    def start(self):
        ch, p = self.ch, self.plan
        if p.rate:
            self.at(self.heal_at, self._heal)
            names = sorted(self.nodes)
            for nm in names:
                nd = self.nodes[nm]
                if not nd.may_fail:
                    continue
                if ch.chance(p.get('skew')):
                    nd.skew = ch.pick([1000, 900, 1100, 500, 2000, 100,
                                       10000])
                    self.log.fault('clock_skew', nm, nd.skew)
                if ch.chance(p.get('crash')):
                    for _ in range(ch.between(1, 3)):
                        t = ch.draw(self.heal_at)
                        self.at(t, self._crash_at, nm)
                if ch.chance(p.get('stall')):
                    t = ch.draw(self.heal_at)
                    self.at(t, self._stall_at, nm,
                            ch.pick([10_000, 100_000, 500_000]))
            if ch.chance(p.get('partition')):
                for _ in range(ch.between(1, 3)):
                    a = ch.draw(self.heal_at)
                    b = min(a + ch.pick([20_000, 200_000, 1_000_000]),
                            self.heal_at)
                    side = frozenset(ch.subset(names))
                    self.cuts.append((a, b, side))
                    self.log.fault('partition', 'net', f'{a}-{b}')
        for nm in sorted(self.nodes):
            self._guard(self.nodes[nm], self.nodes[nm].boot)

    # -- events
    def at(self, delay, fn, *args):
        self.n += 1
        heapq.heappush(self.queue, (self.now + int(delay), self.n, fn, args))

    def timer(self, node, delay, fn, *args):
        """Local timer: scaled by clock skew, cancelled by a crash."""
        self.at(delay * node.skew // 1000, self._timer, node, node.epoch, fn,
                args)

    def _timer(self, node, epoch, fn, args):
        if node.epoch != epoch or not node.up:
            return
        if self.now < node.stalled_until:
            self.at(node.stalled_until - self.now, self._timer, node, epoch,
                    fn, args)
            return
        self._guard(node, fn, *args)

    def send(self, src, dst, kind, body, detail=''):
        ch, p = self.ch, self.plan
        msg = (src, dst, kind, body)
        copies = 1
        if self.faulty:
            if ch.chance(p.get('drop')):
                self.log.fault('drop', src, f'{dst} {kind}')
                copies = 0
            elif ch.chance(p.get('dup')):
                copies = 1 + ch.between(1, 2)
                self.log.fault('dup', src, f'{dst} {kind}')
        for _ in range(copies):
            lat = 100 + ch.draw(self.LATENCY[ch.draw(3)])
            if self.faulty and ch.chance(p.get('delay')):
                lat += ch.pick([50_000, 300_000, 1_500_000])
                self.log.fault('delay', src, f'{dst} {kind}')
            self.at(lat, self._deliver, msg)
        if self.faulty and p.get('replay'):
            self.old.append(msg)
            if ch.chance(p.get('replay')):
                m = ch.pick(self.old)
                self.log.fault('replay', m[0], f'{m[1]} {m[2]}')
                self.at(100 + ch.draw(100_000), self._deliver, m)

    def _deliver(self, msg):
        src, dst, kind, body = msg
        if self.faulty and self.ch.chance(self.plan.get('misdirect')):
            others = [n for n in sorted(self.nodes) if n != dst]
            wrong = self.ch.pick(others)
            self.log.fault('misdirect', src, f'{dst}->{wrong} {kind}')
            dst = wrong
        for a, b, side in self.cuts:
            if a <= self.now < b and ((src in side) != (dst in side)):
                self.log.fault('partition_drop', src, f'{dst} {kind}')
                return
        node = self.nodes[dst]
        if not node.up:
            self.log.ev(dst, 'down', kind)
            return
        if self.now < node.stalled_until:
            self.at(node.stalled_until - self.now, self._deliver, msg)
            return
        self.log.ev(dst, 'recv:' + kind, src)
        self._guard(node, node.on_message, src, kind, body)

    def _guard(self, node, fn, *args):
        prev, self.current = self.current, node
        try:
            fn(*args)
        except Crash:
            self._down(node)
        except DiskError:
            # The node gives up on this input; peers retry.
            self.log.ev(node.name, 'io-failed')
        finally:
            self.current = prev

    # -- faults
    def crash_point(self, name):
        node = self.current
        if node is None or not self.faulty or not node.may_fail:
            return
        if self.ch.chance(self.plan.get('crash_point')):
            self.log.fault('crash_point', node.name)
            raise Crash()

    def _crash_at(self, name):
        node = self.nodes[name]
        if node.up and self.faulty:
            self.log.fault('crash', name)
            self._down(node)

    def _down(self, node):
        node.up = False
        node.epoch += 1
        node.disk.on_crash()
        node.wipe()
        d = self.ch.pick([5_000, 50_000, 300_000])
        self.at(d, self._restart, node)

    def _restart(self, node):
        if node.up:
            return
        node.up = True
        self.log.ev(node.name, 'restart')
        self._guard(node, node.boot)

    def _stall_at(self, name, dur):
        if self.faulty:
            self.nodes[name].stalled_until = self.now + dur
            self.log.fault('stall', name, dur)

    def _heal(self):
        self.faulty = False
        self.log.ev('net', 'heal')
        for nm in sorted(self.nodes):
            node = self.nodes[nm]
            node.stalled_until = 0
            node.skew = 1000

    # -- running
    def run(self, done):
        """Run until done() or nothing is left to do.  Returns done()."""
        while self.queue:
            if done():
                break
            t, _, fn, args = heapq.heappop(self.queue)
            self.now = max(self.now, t)
            self.events += 1
            if self.events > self.max_events or \
                    self.now > self.heal_at + 40_000_000:
                break
            fn(*args)
        self.log.sim_us += self.now
        return done()


class Node:
    may_fail = True

    def __init__(self, name):
        self.name = name

    def boot(self):
        pass

    def wipe(self):
        """Forget everything volatile."""

    def on_message(self, src, kind, body):
        raise NotImplementedError

    def send(self, dst, kind, body):
        self.sim.send(self.name, dst, kind, body)


# ------------------------------------------------------------------ scheduler

class Tasks:
    """Cooperative interleaving of generator tasks inside one process: after
    every step the next task to run is drawn."""

    def __init__(self, ch, log):
        self.ch, self.log = ch, log
        self.live = []

    def add(self, name, gen):
        self.live.append((name, gen))

    def run(self, limit=100_000):
        n = 0
        while self.live:
            n += 1
            if n > limit:
                raise Violation('no-end', 'task limit')
            i = self.ch.draw(len(self.live))
            name, gen = self.live[i]
            self.log.sim_us += 1000     # one scheduling quantum
            try:
                step = next(gen)
                self.log.ev(name, 'step', step if step is not None else '')
            except StopIteration:
                self.log.ev(name, 'end')
                self.live.pop(i)


_REAL_LOCK, _REAL_RLOCK = threading.Lock, threading.RLock
_me = threading.local()


class CoopLock:
    """A lock whose waiting is visible to the deterministic scheduler.  Outside
    scheduled threads it is an ordinary lock."""
    real = staticmethod(_REAL_LOCK)

    def __init__(self):
        self._l = self.real()

    def acquire(self, blocking=True, timeout=-1):
        who = getattr(_me, 'who', None)
        if who is None or not blocking:
            return self._l.acquire(blocking, timeout) if blocking else \
                self._l.acquire(False)
        spins = 0
        while not self._l.acquire(False):
            spins += 1
            if timeout >= 0 and spins > 3:
                return False
            if spins > 2000 or not who[0].yield_from(who[1]):
                raise RuntimeError('deadlock')
        return True

    def release(self):
        self._l.release()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def __getattr__(self, name):
        if name == '_l':
            raise AttributeError(name)
        return getattr(self._l, name)


class CoopRLock(CoopLock):
    real = staticmethod(_REAL_RLOCK)


def cooperative_locks():
    """Locks created from now on are visible to the scheduler."""
    threading.Lock = lambda: CoopLock()
    threading.RLock = lambda: CoopRLock()


class Baton:
    """Binary semaphore on a primitive lock."""

    def __init__(self):
        self._l = _REAL_LOCK()
        self._l.acquire()

    def acquire(self):
        self._l.acquire()

    def release(self):
        self._l.release()


def importing(frame):
    while frame is not None:
        if frame.f_code.co_filename.startswith('<frozen importlib'):
            return True
        frame = frame.f_back
    return False


class Threads:
    """Deterministic preemption.  Real threads, exactly one of which runs at a
    time; every few executed source lines of the code under test the next
    thread to run is drawn."""
    QUANTA = (3, 12, 60, 300, 1500)

    def __init__(self, ch, log, root, most=3000):
        self.ch, self.log, self.root = ch, log, root + '/'
        self.switches = 0
        self.most = most

    def run(self, fns):
        n = len(fns)
        self.sem = [Baton() for _ in range(n)]
        self.over = Baton()
        self.live = list(range(n))
        self.res = [None] * n
        self.scale = self.ch.draw(len(self.QUANTA))
        ths = [threading.Thread(target=self._main, args=(i, f), daemon=True)
               for i, f in enumerate(fns)]
        for t in ths:
            t.start()
        self._quantum()
        self.sem[self.live[self.ch.draw(n)]].release()
        self.over.acquire()
        for t in ths:
            t.join()
        return self.res

    def _quantum(self):
        self.budget = 1 + self.ch.draw(self.QUANTA[self.scale])

    def _main(self, i, fn):
        self.sem[i].acquire()
        root = self.root

        def local(frame, event, arg):
            if event == 'line':
                self.budget -= 1
                if self.budget <= 0 and not importing(frame):
                    self._switch(i)
            return local

        def tracer(frame, event, arg):
            if frame.f_code.co_filename.startswith(root):
                return local
            return None
        _me.who = (self, i)
        sys.settrace(tracer)
        try:
            self.res[i] = ('ok', fn())
        except BaseException as e:
            self.res[i] = ('exc', e)
        finally:
            sys.settrace(None)
            _me.who = None
        self.live.remove(i)
        self.log.ev(f't{i}', 'thread-end')
        if not self.live:
            self.over.release()
            return
        self._quantum()
        self.sem[self.live[self.ch.draw(len(self.live))]].release()

    def _switch(self, i):
        if self.switches >= self.most:
            self.budget = 1 << 60
            return
        self._quantum()
        j = self.live[self.ch.draw(len(self.live))]
        if j == i:
            return
        self.switches += 1
        self.log.sim_us += 1000
        self.log.fault('preempt', f't{i}', f't{j}')
        self.sem[j].release()
        self.sem[i].acquire()

    def yield_from(self, i):
        """Thread i waits for a lock: let another one run."""
        others = [k for k in self.live if k != i]
        if not others:
            return False
        j = others[self.ch.draw(len(others))]
        self.log.sim_us += 1000
        self.log.ev(f't{i}', 'waits for lock', f't{j}')
        self.sem[j].release()
        self.sem[i].acquire()
        return True
