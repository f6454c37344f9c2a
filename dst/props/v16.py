"""Nodes interoperate byte for byte with an independent implementation."""
import pickle

from .. import toy
from ..kernel import HarnessError, Violation
from . import popgen as PG
from .common import C, D, FaultPlan, REAL, STUB, Sim, check, describe, \
    fresh_nonces, h8

RUNS = {'quick': 3000, 'thorough': 24000}
RULE = ('One decision per protocol step executed by both implementations '
        '(byte comparison), one per report verdict, one per result.')
ASSUMPTIONS = ['The independent implementation (dst/ref.py) was written from '
               'the document and reproduces all published test vectors.']
MUST_REACH = ['cfg:count', 'cfg:sum', 'cfg:sumvec', 'cfg:histogram',
              'cfg:multihot', 'cfg:multiproof', 'cfg:mixed', 'cfg:poplar1',
              'shadowed', 'ref-client', 'ref-aggregator', 'ref-collector',
              'sut-client', 'sut-aggregator', 'sut-collector', 'replaced',
              'pingpong', 'star', 'crash', 'drop', 'dup', 'delay',
              'restored-checkpoint', 'long-context', 'many-aggregators',
              'deep-level']
REAL = REAL + ['all of the above, interleaved with the reference']


def prefix(i):
    return [9 if i % 40 == 39 else i % 9]


def gen(ch):
    k = ch.draw(10)
    if k == 9:
        return C.Pop(ch.pick([257, 258, 300, 266, 520]))
    if k >= 7:
        return C.gen_poplar(ch, max_bits=130)
    if ch.chance(12):
        return C.gen_long(ch)
    return C.gen_prio3(ch, kinds=(C.PRIO3[k],), cap=4000)


class Pair:
    """Every step by both, results compared, one of them used."""
    is_ref = 'pair'

    def __init__(self, cfg, log):
        self.a, self.b = cfg.sut(), cfg.refimpl()
        self.cfg, self.log = cfg, log
        self.shares, self.rounds = self.a.shares, self.a.rounds
        self.rand_size, self.key_size = self.b.rand_size, self.b.key_size
        check((self.a.shares, self.a.rounds, self.a.nonce_size,
               self.a.rand_size, self.a.key_size) ==
              (self.b.shares, self.b.rounds, self.b.nonce_size,
               self.b.rand_size, self.b.key_size), 'different-sizes',
              cfg.desc())

    def both(self, what, fn, *pairs):
        want = getattr(self.b, fn)(*[p[1] for p in pairs])
        try:
            got = getattr(self.a, fn)(*[p[0] for p in pairs])
        except (Violation, HarnessError):
            raise
        except Exception as e:
            raise Violation('only-one-refuses',
                            f'{what} {self.cfg.desc()} {e!r:.150}')
        return got, want

    def same(self, what, got, want):
        check(got == want, 'different-bytes',
              lambda: f'{what} {self.cfg.desc()} {h8(got)} / {h8(want)}')
        self.log.ok()
        return got

    def simple(self, fn, *args):
        got, want = self.both(fn, fn, *[(x, x) for x in args])
        return self.same(fn, got, want)

    def shard(self, *args):
        return self.simple('shard', *args)

    def verify_init(self, *args):
        got, want = self.both('verify_init', 'verify_init',
                              *[(x, x) for x in args])
        return (got[0], want[0]), self.same('verify_init', got[1], want[1])

    def shares_to_msg(self, ctx, ap, state, vshares):
        got, want = self.both('combine', 'shares_to_msg', (ctx, ctx),
                              (ap, ap), state, (vshares, vshares))
        return self.same('combine', got, want)

    def verify_next(self, ctx, state, msg, last):
        got, want = self.both('verify_next', 'verify_next', (ctx, ctx), state,
                              (msg, msg), (last, last))
        if last:
            return self.same('output share', got, want)
        return (got[0], want[0]), self.same('verify_next', got[1], want[1])

    def save(self, st):
        return pickle.dumps((self.a.save(st[0]), self.b.save(st[1])))

    def load(self, data):
        x, y = pickle.loads(data)
        return self.a.load(x), self.b.load(y)

    def agg_init(self, ap):
        return self.simple('agg_init', ap)

    def agg_update(self, *args):
        return self.simple('agg_update', *args)

    def merge(self, *args):
        return self.simple('merge', *args)

    def unshard(self, *args):
        return self.a.unshard(*args)


class PairPP:
    """Ping-pong by both."""
    is_ref = 'pair'

    def __init__(self, cfg, log):
        self.a, self.b = cfg.make_pp(), toy.RefPPNode(cfg.refimpl())
        self.cfg, self.log = cfg, log

    def both(self, fn, got, want):
        check(type(got).__name__ == type(want).__name__, 'different-state',
              lambda: f'{fn} {self.cfg.desc()} {type(got).__name__} / '
                      f'{type(want).__name__}')
        o = getattr(got, 'outbound', None)
        check(o == getattr(want, 'outbound', None), 'different-bytes',
              lambda: f'{fn} {self.cfg.desc()}')
        if hasattr(got, 'out_share'):
            check(self.a.encode_out_share(got.out_share) == want.out_share,
                  'different-bytes', lambda: f'{fn} out {self.cfg.desc()}')
        self.log.ok()
        name = type(want).__name__
        cls = getattr(toy, name)
        st = cls(want.t)
        st.pair = (got, want)
        return st

    def ping_pong_leader_init(self, *args):
        return self.both('leader_init', self.a.ping_pong_leader_init(*args),
                         self.b.ping_pong_leader_init(*args))

    def ping_pong_helper_init(self, *args):
        return self.both('helper_init', self.a.ping_pong_helper_init(*args),
                         self.b.ping_pong_helper_init(*args))

    def _cont(self, fn, ctx, ap, state, inbound):
        return self.both(
            fn, getattr(self.a, fn)(ctx, ap, state.pair[0], inbound),
            getattr(self.b, fn)(ctx, ap, state.pair[1], inbound))

    def ping_pong_leader_continued(self, *args):
        return self._cont('ping_pong_leader_continued', *args)

    def ping_pong_helper_continued(self, *args):
        return self._cont('ping_pong_helper_continued', *args)

    def encode_out_share(self, out):
        return out


def run(ch, log):
    cfg = gen(ch)
    ctx = C.gen_ctx(ch)
    describe(log, cfg, ctx)
    if len(ctx) > 160:
        log.probe('long-context')
    key = ch.blob(32, 'key')
    n = ch.between(1, max(1, min(6, 8000 // cfg.weight(), cfg.max_batch())))
    nonces = fresh_nonces(ch, n)
    meas = [cfg.gen_meas(ch) for _ in range(n)]
    shadow = ch.draw(2) == 0
    reports = []
    ref_ok = not (cfg.kind == 'mixed' and cfg.mean)
    for i in range(n):
        if shadow:
            client = Pair(cfg, log)
        else:
            client = cfg.refimpl() if ch.draw(2) else cfg.sut()
            log.probe('ref-client' if client.is_ref else 'sut-client')
        pub, shares = client.shard(ctx, meas[i], nonces[i],
                                   ch.blob(client.rand_size, f'rand{i}'))
        reports.append(D.Report(nonces[i], pub, shares, meas[i]))
    if cfg.poplar:
        params = PG.param_sequence(ch, cfg, meas, most=3)
        aps = [cfg.param(*p) for p in params]
        if any(p[0] > 255 for p in params):
            log.probe('deep-level')
    else:
        params, aps = [None], [b'']
    topology = 'pingpong' if cfg.shares == 2 and ch.draw(3) == 2 else 'star'
    log.probe(topology)
    task = D.Task(cfg, ctx, key, buckets=ch.between(1, 3), topology=topology)
    kinds = {}

    def choose(j):
        if j == 'collector' and not ref_ok:
            return False
        r = bool(ch.draw(2))
        who = 'collector' if j == 'collector' else 'aggregator'
        log.probe(('ref-' if r else 'sut-') + who)
        if kinds.get(j, r) != r:
            log.probe('replaced')
        kinds[j] = r
        return r

    if shadow:
        log.probe('shadowed')
        task.impl_for = lambda j: Pair(cfg, log)
        task.pp_for = lambda j: PairPP(cfg, log)
    else:
        task.impl_for = lambda j: cfg.refimpl() if choose(j) else cfg.sut()
        task.pp_for = lambda j: toy.RefPPNode(cfg.refimpl()) \
            if choose(('pp', j)) else cfg.make_pp()
    sim = Sim(ch, log, FaultPlan(ch, force_none=ch.chance(100)))
    coll = D.run_deployment(sim, task, reports,
                            lambda k, res: aps[k] if k < len(aps) else None)
    for param, (ap, accepted, _, result) in zip(params, coll.results):
        check(len(accepted) == n, 'honest-report-not-counted',
              lambda: f'{cfg.desc()} {sim.refusals}'[:300])
        log.ok(n)
        if cfg.poplar:
            want = [sum(x) for x in zip(*[
                cfg.contribution_at(m, param[1]) for m in meas])]
        else:
            want = cfg.plain(meas)
        check(result == want, 'wrong-result',
              lambda: f'{cfg.desc()} got {result} want {want}')
        log.ok()
