"""Any sufficient set of survivors recovers the dropout-tolerant aggregate."""
import contextlib
import importlib
import random

from .. import sut as S
from ..kernel import Node
from .common import C, FaultPlan, REAL, STUB, Sim, check, h8

RUNS = {'quick': 4500, 'thorough': 48000}
RULE = ('One decision per verdict on a report, per recovered aggregate and '
        'per insufficient set of shares.')
ASSUMPTIONS = ['Report shares are consistent (the client shares one vector); '
               'the client\'s random polynomials are drawn from the seeded '
               'generator; accidental agreement of a 64-bit element is '
               'neglected.']
REAL = ['threshold sharing example', 'FLP', 'validity circuits', 'fields']
MUST_REACH = ['count', 'sum', 'sumvec', 'histogram', 'multihot', 'dropout',
              'exact-threshold', 'more-than-threshold', 'out-of-order',
              'too-few', 'invalid-rejected', 'empty-aggregate', 'crash',
              'drop', 'dup', 'delay', 'partition', 'threshold-one',
              'all-needed', 'poor-randomness',
              'many-aggregators']


def prefix(i):
    return [i % 5]


def module():
    return importlib.import_module('example_flp_shamir')


def circuit(ch, log):
    """(flp, valid measurement generator, plain aggregate, invalid vector)"""
    F, M = S.F, S.flp_mod
    k = ch.draw(5)
    name = ('count', 'sum', 'sumvec', 'histogram', 'multihot')[k]
    log.probe(name)
    fld = ch.pick([F.Field128, F.Field96, F.Field64])
    if k == 0:
        fld = ch.pick([F.Field64, F.Field128])
        v = M.Count(fld)

        def meas():
            return bool(ch.draw(2))

        def plain(ms):
            return sum(ms)
    elif k == 1:
        mx = ch.pick([1, 2, 3, 7, 8, 100, 255, 1000, 2**20, 2**31 - 1])
        v = M.Sum(ch.pick([F.Field64, F.Field128]), mx)

        def meas():
            return C.gen_int(ch, mx)

        def plain(ms):
            return sum(ms)
    elif k == 2:
        n, mx = ch.between(1, 5), ch.pick([1, 2, 3, 7, 10, 255])
        v = M.SumVec(fld, n, mx, ch.between(1, 6))

        def meas():
            return [C.gen_int(ch, mx) for _ in range(n)]

        def plain(ms):
            return [sum(m[i] for m in ms) for i in range(n)]
    elif k == 3:
        n = ch.between(1, 9)
        v = M.Histogram(fld, n, ch.between(1, n))

        def meas():
            return ch.draw(n)

        def plain(ms):
            return [sum(m == i for m in ms) for i in range(n)]
    else:
        n = ch.between(1, 8)
        w = ch.between(1, n)
        v = M.MultihotCountVec(fld, n, w, ch.between(1, n))

        def meas():
            on = ch.shuffle(range(n))[:ch.draw(w + 1)]
            return [i in on for i in range(n)]

        def plain(ms):
            return [sum(m[i] for m in ms) for i in range(n)]
    return M.FlpBBCGGI19(v), meas, plain, name


class Holder(Node):
    """An aggregator; its report shares are durable."""

    def __init__(self, j, flp, reports):
        super().__init__(f'agg{j}')
        self.j, self.flp, self.reports = j, flp, reports
        self.dead = False

    def boot(self):
        pass

    def on_message(self, src, kind, body):
        if self.dead or body[0] != self.name:
            return
        if kind == 'QUERY':
            i = body[1]
            r = self.reports[i]
            v = self.flp.query(r['meas'][self.j], r['proof'][self.j],
                               r['qr'], r['jr'], 1)
            self.send(src, 'VERIFIER', (src, self.j, i, tuple(v)))
        elif kind == 'COLLECT':
            share = aggregate(self.flp, self.reports, self.j, body[1])
            self.send(src, 'SHARE', (src, self.j, tuple(share)))


def aggregate(flp, reports, j, ids):
    acc = flp.field.zeros(flp.OUTPUT_LEN)
    for i in ids:
        acc = [a + b for a, b in zip(
            acc, flp.truncate(reports[i]['meas'][j]))]
    return acc


class Coordinator(Node):
    may_fail = False
    TICK = 50_000

    def __init__(self, ch, log, flp, reports, n, t):
        super().__init__('coord')
        self.ch, self.log, self.flp = ch, log, flp
        self.reports, self.n, self.t = reports, n, t
        self.answers = {i: {} for i in range(len(reports))}
        self.wait = [ch.between(t, min(n, t + 8)) for _ in reports]
        self.age = 0
        self.verdict = {}
        self.shares = {}
        self.result = None
        self.finished = False
        self.mod = module()

    def boot(self):
        self.tick()

    def tick(self):
        if self.finished:
            return
        self.age += 1
        self.sim.timer(self, self.TICK, self.tick)
        for i, got in self.answers.items():
            if i in self.verdict:
                continue
            if len(got) >= self.t and self.age > 6:
                self.decide(i)      # the others seem to be gone
                continue
            for j in range(self.n):
                if j not in got:
                    self.send(f'agg{j}', 'QUERY', (f'agg{j}', i))
        self.collect()

    def collect(self):
        if len(self.verdict) < len(self.reports) or self.finished:
            return
        ids = tuple(i for i in sorted(self.verdict) if self.verdict[i])
        for j in range(self.n):
            if j not in self.shares:
                self.send(f'agg{j}', 'COLLECT', (f'agg{j}', ids))

    def on_message(self, src, kind, body):
        if body[0] != self.name or self.finished:
            return
        if kind == 'VERIFIER':
            _, j, i, v = body
            if i in self.verdict or j in self.answers[i]:
                return
            self.answers[i][j] = list(v)
            if len(self.answers[i]) >= self.wait[i]:
                self.decide(i)
        elif kind == 'SHARE':
            _, j, v = body
            self.shares.setdefault(j, list(v))
            if len(self.shares) >= self.t:
                self.finish()

    def decide(self, i):
        order = list(self.answers[i])
        self.note(order)
        v = self.mod.shamir_unshard(self.flp.field, order,
                                    [self.answers[i][j] for j in order])
        self.verdict[i] = bool(self.flp.decide(v))
        self.log.ev('coord', 'verdict', f'{i} {self.verdict[i]} {order}')
        self.collect()

    def note(self, order):
        if order != sorted(order):
            self.log.probe('out-of-order')
        self.log.probe('exact-threshold' if len(order) == self.t
                       else 'more-than-threshold')

    def finish(self):
        self.finished = True
        self.order = list(self.shares)
        self.note(self.order)
        self.agg = self.mod.shamir_unshard(
            self.flp.field, self.order, [self.shares[j] for j in self.order])


@contextlib.contextmanager
def poor_source(ch, on):
    """The client's source of random numbers returns small numbers."""
    if not on:
        yield
        return
    old = random.randrange, random.randint

    def small(hi):
        return ch.pick([0, 1, 2, 3, hi - 1, hi - 2, hi - 3]) % hi
    random.randrange = lambda a, b=None, step=1: \
        small(a) if b is None else a + small(b - a)
    random.randint = lambda a, b: a + small(b - a + 1)
    try:
        yield
    finally:
        random.randrange, random.randint = old


def invalid(ch, flp, vec):
    """A vector with one or two altered entries that no measurement has."""
    vec = list(vec)
    k = ch.draw(len(vec))
    vec[k] = vec[k] + flp.field(ch.pick([2, 3, flp.field.MODULUS - 2, 5]))
    return vec


def run(ch, log):
    mod = module()
    flp, gen, plain, name = circuit(ch, log)
    random.seed(ch.draw(2**40))
    n = ch.weighted([(ch.between(2, 7), 85), (ch.between(8, 20), 10),
                     (ch.pick([32, 33, 40, 64, 65]), 4),
                     (ch.pick([128, 129, 256, 257, 260]), 1)])
    t = ch.between(1, min(n, 12))
    if n > 20:
        log.probe('many-aggregators')
    if t == 1:
        log.probe('threshold-one')
    if t == n:
        log.probe('all-needed')
    log.ev('cfg', name, f'{t} of {n}')
    fld = flp.field
    reports = []
    poor = ch.chance(250)
    if poor:
        log.fault('poor-randomness')
    for i in range(ch.between(1, 5 if n < 8 else 2 if n < 30 else 1)):
        m = gen()
        vec = flp.encode(m)
        good = not ch.chance(300)
        if not good:
            vec = invalid(ch, flp, vec)
        pr = fld.rand_vec(flp.PROVE_RAND_LEN)
        qr = fld.rand_vec(flp.QUERY_RAND_LEN)
        jr = fld.rand_vec(flp.JOINT_RAND_LEN)
        proof = flp.prove(vec, pr, jr)
        with poor_source(ch, poor):
            meas = mod.shamir_shard(fld, vec, t, n)
            proof = mod.shamir_shard(fld, proof, t, n)
        reports.append({'m': m, 'good': good, 'qr': qr, 'jr': jr,
                        'meas': meas, 'proof': proof})
        for what in ('meas', 'proof'):
            check(len(reports[-1][what]) == n, 'share-count', name)
    sim = Sim(ch, log, FaultPlan(ch, force_none=ch.chance(150)))
    holders = [sim.add(Holder(j, flp, reports)) for j in range(n)]
    coord = sim.add(Coordinator(ch, log, flp, reports, n, t))
    for j in ch.shuffle(range(n))[:ch.draw(n - t + 1)]:
        sim.at(ch.draw(400_000), die, log, holders[j])
    sim.start()
    ok = sim.run(lambda: coord.finished)
    check(ok, 'liveness', f'{name} {t} of {n}')
    for i, r in enumerate(reports):
        check(coord.verdict[i] == r['good'], 'wrong-verdict',
              lambda: f'{name} {t} of {n} answers from '
                      f'{list(coord.answers[i])}, valid={r["good"]}')
        if not r['good']:
            log.probe('invalid-rejected')
        log.ok()
    ids = [i for i, r in enumerate(reports) if r['good']]
    if not ids:
        log.probe('empty-aggregate')
    result(log, flp, name, t, n, reports, ids, plain, coord.agg, coord.order)
    # Other sufficient and insufficient sets.
    shares = [aggregate(flp, reports, j, ids) for j in range(n)]
    for _ in range(3):
        order = ch.shuffle(range(n))[:ch.between(t, min(n, t + 8))]
        agg = mod.shamir_unshard(fld, order, [shares[j] for j in order])
        result(log, flp, name, t, n, reports, ids, plain, agg, order)
        i = ch.draw(len(reports))
        r = reports[i]
        v = mod.shamir_unshard(fld, order, [
            flp.query(r['meas'][j], r['proof'][j], r['qr'], r['jr'], 1)
            for j in order])
        check(bool(flp.decide(v)) == r['good'], 'sets-disagree',
              f'{name} {t} of {n}: {order}')
        log.ok()
    if t > 1 and not poor:
        order = ch.shuffle(range(n))[:t - 1]
        r = ch.pick(reports)
        log.probe('too-few')
        for what in ('meas', 'proof'):
            most = min(n, t + 8)
            full = mod.shamir_unshard(fld, list(range(most)), r[what][:most])
            few = mod.shamir_unshard(fld, order, [r[what][j] for j in order])
            check(not any(a == b for a, b in zip(full, few)),
                  'too-few-recover', f'{name} {t} of {n}: {order} {what}')
            log.ok()


def result(log, flp, name, t, n, reports, ids, plain, agg, order):
    if not ids:
        check(all(x == flp.field(0) for x in agg), 'wrong-aggregate',
              f'{name} {t} of {n} empty')
        log.ok()
        return
    got = flp.decode(agg, len(ids))
    want = plain([reports[i]['m'] for i in ids])
    check(got == want, 'wrong-aggregate',
          lambda: f'{name} {t} of {n} from {order}: {got} want {want}')
    log.ok()


def die(log, holder):
    log.fault('dropout', holder.name)
    holder.dead = True
