"""A task is set up with usable parameters or not at all."""
from .. import attacks as A
from .. import flow
from .. import ref as R
from .. import sut as S
from ..kernel import Tasks
from .common import C, REAL, STUB, check, describe, fresh_nonces

RUNS = {'quick': 4000, 'thorough': 50000}
RULE = ('One decision per set-up, one per honest report and one per cheating '
        'report under a configuration that could be set up.')
MUST_REACH = ['cfg:count', 'cfg:sum', 'cfg:sumvec', 'cfg:histogram',
              'cfg:multihot', 'cfg:multiproof', 'cfg:poplar1', 'usable',
              'refused-set-up', 'edge', 'typo:shares', 'typo:mx',
              'typo:length', 'typo:chunk', 'typo:proofs', 'typo:bits',
              'cheat-rejected', 'restarted', 'large', 'set-up-only']


def prefix(i):
    return [i % 7]


KINDS = ('count', 'sum', 'sumvec', 'histogram', 'multihot', 'multiproof')


def usable(cfg):
    """The documented limits."""
    if cfg.poplar:
        return cfg.bits > 0
    if not 2 <= cfg.shares < 256:
        return False
    k, p = cfg.kind, cfg.modulus()
    if hasattr(cfg, 'length') and cfg.length <= 0:
        return False
    if hasattr(cfg, 'chunk') and cfg.chunk <= 0:
        return False
    if hasattr(cfg, 'proofs') and not 1 <= cfg.proofs < 256:
        return False
    if k in ('sum', 'sumvec', 'multiproof'):
        return cfg.mx > 0 and 2**cfg.mx.bit_length() < p
    if k == 'multihot':
        return 0 < cfg.mx <= cfg.length
    return True


def meas_len(cfg):
    k = cfg.kind
    if k == 'count':
        return 1
    if k == 'sum':
        return cfg.mx.bit_length()
    if k == 'histogram':
        return cfg.length
    if k == 'multihot':
        return cfg.length + cfg.mx.bit_length()
    return cfg.length * cfg.mx.bit_length()


def small(ch, kind):
    s = ch.weighted([(2, 4), (3, 2), (5, 1)])
    if kind == 'count':
        return dict(shares=s)
    if kind == 'sum':
        return dict(shares=s, mx=ch.between(1, 40))
    d = dict(shares=s, length=ch.between(1, 6))
    if kind == 'histogram':
        d['chunk'] = C.gen_chunk(ch, d['length'])
    elif kind == 'multihot':
        d['mx'] = ch.between(1, d['length'])
        d['chunk'] = C.gen_chunk(ch, d['length'] + 2)
    else:
        d['mx'] = ch.between(1, 12)
        d['chunk'] = C.gen_chunk(ch, d['length'] * d['mx'].bit_length())
        if kind == 'multiproof':
            d['p'] = ch.pick([R.P64, R.P128, R.P96])
            d['proofs'] = ch.between(1, 4)
    return d


def spoil(ch, log, kind, d):
    """One field of the configuration is wrong, or at its limit."""
    f = ch.pick([k for k in d if k != 'p'])
    log.fault('config', f)
    log.probe('typo:' + f)
    if f == 'shares':
        v = ch.pick([1, 0, 256, 255, -1, 257, 2, -2, 65536, 254])
        if v in (254, 255) and kind != 'count':
            d.update({k: 1 for k in d if k != 'p'})
    elif f == 'proofs':
        v = ch.pick([0, -1, 255, 256, 1, 257, 512])
        if v == 255:
            d.update(length=1, mx=1, chunk=1, shares=2)
    elif f == 'mx' and kind == 'multihot':
        n = d['length']
        v = ch.pick([0, -1, n, n + 1, 2 * n, -n, 1, 2**64, R.P128, R.P128 + 1])
    elif f == 'mx':
        p = d.get('p', R.P64 if kind == 'sum' else R.P128)
        b = p.bit_length()
        v = ch.pick([0, -1, 2**(b - 1) - 1, 2**(b - 1), 2**b - 1, p - 1, p,
                     p + 1, 2**b, -2, 2**(b - 2), 2**(b - 1) - 2, 2**(2 * b),
                     1])
        if kind != 'sum':
            d.update(length=1, chunk=ch.pick([1, b, 12]))
    else:
        v = ch.pick([0, -1, 1, -3, 2, 40])
    d[f] = v
    return d


SIZES = (255, 256, 257, 300, 513, 1000, 1025, 4095, 4096, 4097, 5000, 65535,
         65536, 65537, 100_000, 2**20 + 1)


def large_cfg(ch, k):
    """Sizes far beyond what is usual, but within the limits."""
    n = ch.pick(SIZES)
    if k == 6:
        return C.Pop(n)
    kind = ch.pick(KINDS[2:])
    s = ch.pick([2, 2, 3])
    if kind == 'histogram':
        d = dict(length=n)
    elif kind == 'multihot':
        d = dict(length=n, mx=ch.pick([1, n, n // 2, 255]))
    else:
        d = dict(length=n, mx=ch.pick([1, 1, 255, 2**32]))
    d['chunk'] = ch.pick([int(n**0.5), 1, n, 2 * n, 300, 65536])
    if kind == 'multiproof':
        d.update(p=ch.pick([R.P64, R.P128, R.P96]), proofs=ch.pick([1, 2, 3]))
    return C.P3(kind, s, **d)


def too_big(cfg):
    """Would a report take more than a second or so?"""
    if cfg.poplar:
        return cfg.bits > 600
    return hasattr(cfg, 'length') and (
        cfg.length * cfg.mx.bit_length()
        if cfg.kind in ('sumvec', 'multiproof') else cfg.length) > 200 and \
        (cfg.weight() > 15000 or cfg.circuit().calls[0] > 127)


def make_cfg(ch, log):
    k = ch.draw(7)
    if ch.chance(80):
        log.probe('large')
        return large_cfg(ch, k)
    if k == 6:
        bits = ch.between(1, 20)
        if ch.chance(400):
            log.fault('config', 'bits')
            log.probe('typo:bits')
            bits = ch.pick([0, -1, 1, -8, 256, 2])
        return C.Pop(bits)
    d = small(ch, KINDS[k])
    if ch.chance(700):
        d = spoil(ch, log, KINDS[k], d)
    s = d.pop('shares')
    return C.P3(KINDS[k], s, **d)


def run(ch, log):
    tasks = Tasks(ch, log)
    for i in range(ch.between(1, 3)):
        cfg = make_cfg(ch, log)
        ctx = C.gen_ctx(ch)
        describe(log, cfg, ctx)
        tasks.add(f't{i}', task(ch, log, cfg, ctx))
    tasks.run()


def measurement(ch, cfg):
    """Something in the domain; for unusable parameters, something that
    looks as if it were."""
    try:
        return cfg.gen_meas(ch)
    except Exception:
        pass
    k = cfg.kind
    if k == 'poplar1':
        return ()
    if k in ('count', 'sum', 'histogram'):
        return 0
    return [0] * max(0, cfg.length)


def task(ch, log, cfg, ctx):
    ok = usable(cfg)
    what = cfg.desc()
    try:
        impl = cfg.sut()
    except Exception as e:
        check(not ok, 'usable-configuration-refused', f'{what}: {e!r:.100}')
        log.probe('refused-set-up')
        log.ok()
        return
    # A sum bounded by less than one is let through here, but then no report
    # under it may be.
    check(ok or (cfg.kind == 'sum' and cfg.mx <= 0 and 2 <= cfg.shares < 256),
          'unusable-configuration-set-up', what)
    log.ok()
    if ok:
        log.probe('usable')
        if cfg.shares > 250 or getattr(cfg, 'mx', 0) > 2**60 or \
                getattr(cfg, 'proofs', 0) == 255:
            log.probe('edge')
    if ok and too_big(cfg):
        log.probe('set-up-only')
        check(impl.shares == cfg.shares and impl.rounds == cfg.rounds,
              'set-up-differs', what)
        return
    yield 'set-up'
    m = measurement(ch, cfg)
    nonce = fresh_nonces(ch, 1)[0]
    key = ch.blob(32, 'key')
    ap, pres = b'', ()
    try:
        if cfg.poplar:
            level = cfg.gen_level(ch)
            pres = cfg.gen_prefixes(ch, level, [m])
            ap = cfg.param(level, pres)
        n = impl.shares
        # every party sets the task up for itself
        parties = [cfg.sut() if ch.draw(2) else impl for _ in range(min(n, 8))]
        parties += [impl] * (n - len(parties))

        def store(im, st):
            if ch.chance(200):
                log.probe('restarted')
                return im.load(im.save(st))
            return st
        pub, shares = impl.shard(ctx, m, nonce,
                                 ch.blob(impl.rand_size, 'rand'))
    except Exception as e:
        check(not ok, 'usable-configuration-fails', f'{what}: {e!r:.100}')
        log.ok()
        return
    yield 'sharded'
    try:
        outs = flow.verify(parties, n, key, ctx, ap, nonce, pub, shares,
                           cfg.rounds, store=store)
        aggs = [impl.agg_update(ap, impl.agg_init(ap), o) for o in outs]
        got = impl.unshard(ap, aggs, 1)
    except Exception as e:
        check(not ok, 'usable-configuration-fails', f'{what}: {e!r:.100}')
        log.ok()
        return
    check(ok, 'unusable-configuration-works', what)
    want = cfg.contribution_at(m, pres) if cfg.poplar else cfg.plain([m])
    check(got == want, 'wrong-result', f'{what}: {got} want {want}')
    log.ok()
    yield 'verified'
    if cfg.poplar:
        return
    # Reports go through; so the checks on them have to be there too.
    length = meas_len(cfg)
    if length < 1:
        return
    p = cfg.modulus()
    vec = [0] * length
    vec[ch.draw(length)] = ch.pick([2, p - 1, 3])
    try:
        v, spy = A.evil_client(cfg)
        spy.vec = vec
        pub, shares = S.Sut(v).shard(ctx, None, nonce,
                                     ch.fresh(impl.rand_size, 'evil'))
        flow.verify(parties, n, key, ctx, ap, nonce, pub, shares, cfg.rounds)
    except Exception:
        log.probe('cheat-rejected')
        log.ok()
        return
    check(False, 'unchecked-report-accepted', f'{what}: entry {max(vec)}')
