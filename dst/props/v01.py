"""Prio3 result is the plain aggregate of the accepted reports."""
from .. import flow
from .common import C, D, FaultPlan, REAL, STUB, Sim, check, describe, \
    fresh_nonces

RUNS = {'quick': 1200, 'thorough': 12000}
RULE = ('One decision per collected result, one per report verdict and one '
        'per per-aggregator commit count.')
ASSUMPTIONS = ['Durable records are atomic and checksummed; the shells commit '
               'a report only after all aggregators finished it.']
MUST_REACH = ['cfg:count', 'cfg:sum', 'cfg:sumvec', 'cfg:histogram',
              'cfg:multihot', 'cfg:multiproof', 'cfg:mixed', 'crash',
              'crash_point', 'drop', 'dup', 'delay', 'partition', 'stall',
              'disk_error', 'clock_skew', 'replay', 'misdirect',
              'restored-checkpoint', 'bad-report-rejected', 'pingpong',
              'near-modulus', 'large-batch', 'long-vector']


def prefix(i):
    # variant first (stratified)
    return [i % len(C.PRIO3)]


def corrupt(ch, rep):
    """A damaged upload: one flipped bit in one aggregator's share."""
    shares = [bytes(s) for s in rep.shares]
    j = ch.draw(len(shares))
    s = bytearray(shares[j])
    k = ch.draw(len(s) * 8)
    s[k // 8] ^= 1 << (k % 8)
    shares[j] = bytes(s)
    return D.Report(rep.nonce, rep.pub, shares, rep.meas, False, 'bitflip')


def heavy(ch):
    """A batch whose total comes as close to the modulus as it may."""
    n = ch.between(2, 7)
    kind, p = ch.pick([('sum', C.R.P64), ('sumvec', C.R.P128)])
    mx = (p - 1) // n
    if 2**mx.bit_length() >= p:
        mx = 2**(p.bit_length() - 1) - 1
    kw = dict(length=1, chunk=12) if kind == 'sumvec' else {}
    cfg = C.P3(kind, ch.pick([2, 2, 3]), mx=mx, **kw)
    n = min(n, cfg.max_batch())
    ms = [max(0, mx - (ch.draw(3) if ch.chance(300) else 0))
          for _ in range(n)]
    return cfg, [[m] for m in ms] if kw else ms


def large(ch, log, cfg, ap, ctx, meas):
    """A batch of hundreds of reports, verified in order without a network.
    Returns the accepted measurements and the result."""
    impl = cfg.sut()
    key = ch.blob(impl.key_size, 'key')
    salt = ch.fresh(12, 'large')
    bad = {ch.draw(len(meas)) for _ in range(ch.draw(3))}
    k = ch.between(1, 3)
    aggs = [[impl.agg_init(ap) for _ in range(k)] for _ in range(cfg.shares)]
    kept = []
    for i, m in enumerate(meas):
        nonce = salt + i.to_bytes(4, 'big')
        pub, shares = impl.shard(ctx, m, nonce,
                                 ch.fresh(impl.rand_size, f'rand{i}'))
        if i in bad:
            shares = corrupt(ch, D.Report(nonce, pub, shares, m)).shares
        try:
            outs = flow.verify(impl, cfg.shares, key, ctx, ap, nonce, pub,
                               shares, cfg.rounds)
        except flow.Refused as e:
            check(i in bad, 'honest-report-not-counted',
                  f'{cfg.desc()} report {i} of {len(meas)}: {e}')
            continue
        kept.append(m)
        for j, o in enumerate(outs):
            aggs[j][i % k] = impl.agg_update(ap, aggs[j][i % k], o)
    log.ok(len(meas))
    return kept, impl.unshard(ap, [impl.merge(ap, a) for a in aggs],
                              len(kept))


def large_batch(ch, log):
    n = ch.pick([255, 256, 257, 300, 512, 513])
    cfg = ch.pick([C.P3('count', 2), C.P3('sum', 2, mx=255),
                   C.P3('sum', 3, mx=2**31 - 1),
                   C.P3('histogram', 2, length=3, chunk=2),
                   C.P3('sumvec', 2, length=2, mx=1, chunk=2)])
    ctx = C.gen_ctx(ch)
    describe(log, cfg, ctx)
    log.probe('large-batch')
    usual = cfg.gen_meas(ch)
    most = {'count': 1, 'sum': getattr(cfg, 'mx', 0), 'histogram': 2,
            'sumvec': [1, 1]}[cfg.kind]
    meas = [cfg.gen_meas(ch) if ch.chance(100) else
            most if ch.chance(700) else usual for _ in range(n)]
    kept, result = large(ch, log, cfg, b'', ctx, meas)
    want = cfg.plain(kept)
    check(result == want, 'wrong-result',
          lambda: f'{cfg.desc()} {len(kept)} reports: got {result} '
                  f'want {want}')
    log.ok()


def run(ch, log):
    cfg, meas = C.gen_prio3(ch, cap=2500), []
    if ch.chance(20):
        return large_batch(ch, log)
    if ch.chance(60):
        cfg, meas = heavy(ch)
        log.probe('near-modulus')
    elif ch.chance(25):
        cfg = C.gen_long(ch)
        log.probe('long-vector')
    ctx = C.gen_ctx(ch)
    describe(log, cfg, ctx)
    impl = cfg.sut()
    key = ch.blob(impl.key_size, 'key')
    w = cfg.weight()
    most = max(1, min(14, 12000 // w, cfg.max_batch()))
    n = len(meas) or ch.between(1, most)
    nonces = fresh_nonces(ch, n)
    reports = []
    for i in range(n):
        m = meas[i] if meas else cfg.gen_meas(ch)
        pub, shares = impl.shard(ctx, m, nonces[i],
                                 ch.blob(impl.rand_size, f'rand{i}'))
        rep = D.Report(nonces[i], pub, shares, m)
        if ch.chance(80):
            rep = corrupt(ch, rep)
        reports.append(rep)
    topology = 'pingpong' if cfg.shares == 2 and ch.draw(3) == 2 else 'star'
    log.probe(topology)
    task = D.Task(cfg, ctx, key, buckets=ch.between(1, 4), topology=topology)
    sim = Sim(ch, log, FaultPlan(ch))
    coll = D.run_deployment(sim, task, reports,
                            lambda k, res: b'' if k == 0 else None)
    ap, accepted, shares, result = coll.results[0]
    log.ev('oracle', 'accepted', accepted)
    for i, rep in enumerate(reports):
        if rep.honest:
            check(i in accepted, 'honest-report-not-counted',
                  lambda: f'report {i} {cfg.desc()} '
                          f'{sim.refusals.get((0, i))}')
        else:
            check(i not in accepted, 'damaged-report-counted',
                  f'report {i} {cfg.desc()}')
            log.probe('bad-report-rejected')
        log.ok()
    check(len(set(accepted)) == len(accepted), 'counted-twice')
    if accepted:
        want = cfg.plain([reports[i].meas for i in accepted])
        check(result == want, 'wrong-result',
              lambda: f'{cfg.desc()} got {result} want {want}')
        log.ok()
    for nd in sim.aggs:
        done = nd.disk.keys('committed/')
        check(len(done) == len(accepted), 'commit-count', nd.name)
        log.ok()
