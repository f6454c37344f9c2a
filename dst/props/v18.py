"""One-call drivers return the plain aggregate and never mask a failure."""
import os

from .. import sut as S
from .. import toy
from ..kernel import Threads, Violation, expand
from ..script import flip
from .common import C, REAL, STUB, check, describe, h8

RUNS = {'quick': 2000, 'thorough': 33000}
RULE = ('One decision per driver call (result or failure) and one per check '
        'of the nonces and randomness it handed to the client code.')
ASSUMPTIONS = ['Batches are not empty; their total fits the field.']
MUST_REACH = ['cfg:count', 'cfg:sum', 'cfg:sumvec', 'cfg:histogram',
              'cfg:multihot', 'cfg:multiproof', 'cfg:mixed', 'cfg:poplar1',
              'cfg:toy', 'cfg:daf', 'urandom-error', 'urandom-short',
              'urandom-long', 'urandom-empty', 'out-of-memory', 'key-size',
              'bad-measurement', 'damaged-report', 'step-error', 'plain',
              'concurrent', 'rerun-after-failure', 'large-batch', 'many-roles']


def prefix(i):
    return [i % 12, 0 if i // 12 % 3 == 0 else 1]


class Add(S.daf_mod.Daf):
    """A plain additive aggregation function."""
    ID = 0xFFFF0D0D
    NONCE_SIZE = 16
    P = 2**61 - 1

    def __init__(self, shares, length, mode):
        self.SHARES, self.length, self.mode = shares, length, mode
        self.RAND_SIZE = 8 * length * (shares - 1)

    def shard(self, ctx, measurement, nonce, rand):
        if len(nonce) != 16 or len(rand) != self.RAND_SIZE:
            raise ValueError('size')
        if len(measurement) != self.length:
            raise ValueError('measurement')
        left = list(measurement)
        out = []
        for j in range(1, self.SHARES):
            v = []
            for i in range(self.length):
                k = 8 * ((j - 1) * self.length + i)
                x = int.from_bytes(rand[k:k + 8], 'big') % self.P
                left[i] = (left[i] - x) % self.P
                v.append(x)
            out.append((j, nonce, ctx, v))
        return (nonce, ctx), [(0, nonce, ctx, left)] + out

    def is_valid(self, agg_param, previous_agg_params):
        return True

    def prep(self, ctx, agg_id, agg_param, nonce, public_share, input_share):
        j, n, c, v = input_share
        if (j, n, c) != (agg_id, nonce, ctx) or public_share != (nonce, ctx):
            raise ValueError('setting')
        # the output depends on the parameter: a rotation
        return v[agg_param:] + v[:agg_param]

    def agg_init(self, agg_param):
        return [0] * self.length

    def agg_update(self, agg_param, agg_share, out_share):
        return [(a + b) % self.P for a, b in zip(agg_share, out_share)]

    def merge(self, agg_param, agg_shares):
        return [sum(x) % self.P for x in zip(*agg_shares)]

    def unshard(self, agg_param, agg_shares, num_measurements):
        tot = self.merge(agg_param, agg_shares)
        if self.mode:
            return (num_measurements, tot)
        return tot


class Boom(Exception):
    pass


class Faults:
    """Decides which call fails, and how."""

    def __init__(self, ch, log, salt):
        self.ch, self.log, self.salt = ch, log, salt
        self.calls = 0
        self.rng_at = self.rng_kind = None
        self.step_at = self.harm_at = None
        self.steps = self.shards = 0
        self.fired = []
        self.seen = []

    def urandom(self, k):
        self.calls += 1
        b = expand(f'driver/{self.salt}/{self.calls}', k)
        if self.calls - 1 == self.rng_at:
            kind = self.rng_kind
            self.log.fault(kind)
            self.fired.append(kind)
            if kind == 'urandom-error':
                raise OSError(5, 'Input/output error')
            if kind == 'out-of-memory':
                raise MemoryError()
            if kind == 'urandom-short':
                return b[:-1]
            if kind == 'urandom-empty':
                return b''
            return b + b'\0'
        return b


def spy(vdaf, faults, steps, damage):
    """The object with its public methods observed."""
    base = type(vdaf)

    def wrap(name):
        orig = getattr(base, name)

        def fn(self, *args, **kw):
            faults.steps += 1
            if faults.steps - 1 == faults.step_at:
                faults.log.fault('step-error', name)
                faults.fired.append('step-error')
                raise Boom(name)
            return orig(self, *args, **kw)
        return fn

    def shard(self, ctx, measurement, nonce, rand):
        faults.seen.append((ctx, measurement, nonce, rand))
        faults.shards += 1
        res = base.shard(self, ctx, measurement, nonce, rand)
        if faults.shards - 1 == faults.harm_at:
            faults.log.fault('damaged-report')
            faults.fired.append('damaged-report')
            return damage(self, res)
        return res
    ns = {n: wrap(n) for n in steps}
    ns['shard'] = shard
    vdaf.__class__ = type('Spied' + base.__name__, (base,), ns)
    return vdaf


def job(ch, log, which, salt):
    """(call(source) -> result, expected, batch size, faults, vdaf)"""
    faults = Faults(ch, log, salt)
    ctx = C.gen_ctx(ch)
    if which == 11:
        shares = ch.between(2, 6)
        if ch.chance(200):
            log.probe('many-roles')
            shares = ch.pick([16, 17, 18, 32, 33, 34, 65, 129, 255, 256, 257,
                              300])
        d = Add(shares, ch.between(1, 4), ch.draw(2))
        log.ev('cfg', 'daf', f'{d.SHARES} {d.length}')
        log.probe('cfg:daf')
        ap = ch.draw(d.length)
        n = ch.between(1, 8)
        ms = [[ch.draw(2**40) for _ in range(d.length)] for _ in range(n)]
        tot = [sum(x) for x in zip(*ms)]
        tot = tot[ap:] + tot[:ap]
        want = (n, tot) if d.mode else tot

        def harm(self, res):
            pub, shares = res
            shares = list(shares)
            shares[0], shares[-1] = shares[-1], shares[0]
            if len(shares) == 1:
                shares[0] = (7,) + shares[0][1:]
            return pub, shares
        spy(d, faults, ('prep', 'agg_update', 'agg_init', 'unshard'), harm)
        bad = [1] * (d.length + 1)
        return {'call': lambda key, ms: S.daf_mod.run_daf(d, ctx, ap, ms),
                'want': want, 'ms': ms, 'faults': faults, 'bad': bad,
                'key': None, 'vdaf': d, 'desc': 'daf', 'ctx': ctx}
    if which >= 9:
        cfg = toy.ToyCfg(toy.gen_rounds(ch, 6, 80), 0)
        describe(log, cfg, ctx)
        v = toy.Toy(*cfg.ctor_args()) if hasattr(cfg, 'ctor_args') else \
            cfg.make()
        ap, bad = ch.draw(5), None
        n = ch.between(1, 6) if cfg.rounds > 6 or not ch.chance(40) else \
            ch.pick([255, 256, 257, 300])
        ms = [ch.draw(1000) for _ in range(n)]
        want = sum(ms) % toy.M
    else:
        if which >= 7:
            cfg = C.gen_poplar(ch, max_bits=64)
        else:
            cfg = C.gen_prio3(ch, kinds=(C.PRIO3[which],), cap=1500,
                              big=ch.chance(60))
        describe(log, cfg, ctx)
        v = cfg.make()
        n = ch.between(1, max(1, min(6, 3000 // cfg.weight(),
                                     cfg.max_batch())))
        if cfg.weight() <= 300 and ch.chance(40):
            log.probe('large-batch')
            n = min(cfg.max_batch(), ch.pick([255, 256, 257, 300]))
        ms = [cfg.gen_meas(ch) for _ in range(n)]
        if cfg.poplar:
            lv = cfg.gen_level(ch)
            pres = cfg.gen_prefixes(ch, lv, ms)
            ap = v.decode_agg_param(cfg.param(lv, pres))
            want = [sum(x) for x in zip(*[cfg.contribution_at(m, pres)
                                          for m in ms])]
            bad = (True,) * (cfg.bits + 1)
        else:
            ap, want = None, cfg.plain(ms)
            bad = {'count': 2, 'sum': lambda: cfg.mx + 1,
                   'sumvec': lambda: [0] * (cfg.length - 1) + [cfg.mx + 1],
                   'multiproof': lambda: [cfg.mx + 1] * cfg.length,
                   'histogram': lambda: cfg.length,
                   'multihot': lambda: [True] * (cfg.length + 1),
                   'mixed': None}[cfg.kind]
            if callable(bad):
                bad = bad()
    first = 16 * 8 if cfg.poplar else None
    where = ch.draw(2**30)

    def harm(self, res):
        pub, shares = res
        shares = list(shares)
        j = where % len(shares)
        enc = self.encode_input_share(shares[j])
        k = where // 7
        enc = flip(enc, k % first if first else k)
        shares[j] = self.decode_input_share(j, enc)
        return pub, shares
    if which in (9, 10):
        def harm(self, res):    # noqa: F811
            return flip(res[0], where), res[1]
    spy(v, faults, ('verify_init', 'verifier_shares_to_message',
                    'verify_next', 'agg_update', 'agg_init', 'unshard'), harm)
    key = ch.blob(v.VERIFY_KEY_SIZE, 'key')
    return {'call': lambda key, ms: S.vdaf_mod.run_vdaf(v, key, ap, ctx, ms),
            'want': want, 'ms': ms, 'faults': faults, 'bad': bad, 'key': key,
            'vdaf': v, 'desc': cfg.desc(), 'ctx': ctx}


def plan(ch, log, j, clean):
    """Chooses a failure; returns (key, measurements)."""
    f = j['faults']
    key, ms = j['key'], list(j['ms'])
    if clean:
        log.probe('plain')
        return key, ms
    how = ch.draw(5)
    if how == 1 and (j['bad'] is None):
        how = 0
    if how == 2 and key is None:
        how = 0
    if how == 0:
        f.rng_at = ch.draw(2 * len(ms))
        kinds = ['urandom-error', 'out-of-memory', 'urandom-short',
                 'urandom-empty', 'urandom-long']
        f.rng_kind = ch.pick(kinds)
        if j['desc'].startswith('toy') or f.salt.startswith('toy'):
            f.rng_kind = ch.pick(kinds[:2])     # the toy checks no sizes
    elif how == 1:
        log.fault('bad-measurement')
        f.fired.append('bad-measurement')
        ms[ch.draw(len(ms))] = j['bad']
    elif how == 2:
        log.fault('key-size')
        f.fired.append('key-size')
        key = ch.pick([key[:-1], key + b'\0', b'', key * 2])
    elif how == 3:
        f.harm_at = ch.draw(len(ms))
    else:
        f.step_at = ch.draw(4 * len(ms))
    return key, ms


def attempt(j, key, ms):
    try:
        return 'ok', j['call'](key, ms)
    except Exception as e:
        return 'raised', e


def judge(log, j, res, ms):
    f = j['faults']
    if f.fired:
        check(res[0] == 'raised', 'failure-masked',
              lambda: f'{j["desc"]} {f.fired} gave {res[1]!r:.80}')
        log.ok()
        return
    check(res[0] == 'ok', 'driver-failed',
          lambda: f'{j["desc"]} {res[1]!r:.200}')
    check(res[1] == j['want'], 'wrong-result',
          lambda: f'{j["desc"]} got {res[1]!r:.100} want {j["want"]!r:.100}')
    log.ok()
    v = j['vdaf']
    check([s[1] for s in f.seen] == ms, 'measurements-differ', j['desc'])
    check(all(s[0] == j['ctx'] for s in f.seen), 'context-differs', j['desc'])
    for what, k, size in (('nonce', 2, v.NONCE_SIZE),
                          ('randomness', 3, v.RAND_SIZE)):
        got = [s[k] for s in f.seen]
        check(all(len(x) == size for x in got), 'wrong-size',
              f'{j["desc"]} {what}')
        check(size == 0 or len(set(got)) == len(got), 'not-fresh',
              f'{j["desc"]} {what} repeats')
    check(all(s[2] != s[3][:len(s[2])] for s in f.seen if s[3]), 'not-fresh',
          f'{j["desc"]} nonce taken from the randomness')
    log.ok()


def reset(f):
    f.rng_at = f.step_at = f.harm_at = None
    f.steps = f.shards = 0
    f.fired, f.seen = [], []


def run(ch, log):
    which = ch.draw(12)
    faulty = ch.draw(3)
    salt = f'{"toy" if which in (9, 10) else ""}{ch.draw(2**30)}'
    jobs = [job(ch, log, which, salt)]
    if ch.chance(200):
        log.probe('concurrent')
        jobs.append(job(ch, log, which, salt + 'b'))
        owner = {}

        def urandom(k):
            import threading
            return owner[threading.get_ident()].urandom(k)
        os.urandom = urandom
        plans = [plan(ch, log, j, not faulty) for j in jobs]

        def go(i):
            import threading
            owner[threading.get_ident()] = jobs[i]['faults']
            return attempt(jobs[i], *plans[i])
        res = Threads(ch, log, S.POC, most=400).run(
            [lambda i=i: go(i) for i in range(2)])
        for j, p, r in zip(jobs, plans, res):
            if r[0] == 'exc':
                raise r[1]
            judge(log, j, r[1], p[1])
        return
    j = jobs[0]
    os.urandom = j['faults'].urandom
    key, ms = plan(ch, log, j, not faulty)
    res = attempt(j, key, ms)
    log.ev('driver', res[0], h8(repr(res[1])[:60].encode())
           if res[0] == 'ok' else type(res[1]).__name__)
    judge(log, j, res, ms)
    if j['faults'].fired:
        # the failure is over: the same call on the same object works
        log.probe('rerun-after-failure')
        reset(j['faults'])
        res = attempt(j, j['key'], j['ms'])
        judge(log, j, res, j['ms'])
