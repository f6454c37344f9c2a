"""Prio3 never counts a measurement outside its domain."""
from .. import attacks as A
from .. import flow
from .common import C, D, FaultPlan, REAL, STUB, Sim, check, describe, \
    fresh_nonces

RUNS = {'quick': 1900, 'thorough': 20000}
RULE = ('One decision per cheating report (refused by the client code or '
        'rejected), one per honest report, one per result.')
ASSUMPTIONS = ['Cheating clients do not know the verification key, or guess '
               'all but one of the checks it leads to; soundness error is '
               'below 2^-40 per report.']
MUST_REACH = ['cfg:count', 'cfg:sum', 'cfg:sumvec', 'cfg:histogram',
              'cfg:multihot', 'cfg:multiproof', 'cfg:mixed', 'plain-cheat',
              'patched-proof', 'code-client', 'adaptive', 'adaptive-late',
              'known-test-point',
              'client-refused', 'crash', 'drop', 'dup', 'delay',
              'forged-one-proof', 'all-but-one', 'all-but-one-proof',
              'rejected', 'long-vector', 'strided', 'lone-error',
              'short-tail']


def prefix(i):
    return [i % len(C.PRIO3)]


def cheat(ch, log, cfg, ctx, key, nonce):
    """Returns (pub, shares, note) or None when refused client-side."""
    ref = cfg.ref()
    rand = ch.fresh(ref.rand_size, 'evilrand')
    how = ch.draw(7)
    if how == 0 and cfg.kind != 'mixed':
        m = A.bad_measurement(ch, cfg)
        try:
            pub, shares = cfg.sut().shard(ctx, m, nonce, rand)
        except Exception as e:
            log.probe('client-refused')
            log.ev('client', 'refused', f'{m!r:.60} {type(e).__name__}')
            log.ok()
            return None
        return pub, shares, f'client encoded {m!r:.80}'
    if how == 1:
        log.probe('patched-proof')
        vec, label = A.bad_vector(ch, cfg, ref.c)
        only = ch.draw(ref.proofs + 1)   # 0: patch all

        def forge(i, pf, jr):
            if only and i != only - 1:
                return pf
            return A.patched_proof(ref, pf, jr, vec)
        if only:
            log.probe('forged-one-proof')
        pub, shares = ref.shard_vec(ctx, vec, nonce, rand, forge=forge)
        return pub, shares, f'{label}, patched proof {only}'
    if how in (2, 3, 4):
        v, spy = A.evil_client(cfg)
        s = D.S.Sut(v)
        spy.vec, label = A.bad_vector(ch, cfg, ref.c)
        pub, shares = s.shard(ctx, None, nonce, rand)
        if how == 2:
            log.probe('code-client')
            return pub, shares, label
        if how == 3 and ch.draw(2):
            # sees the joint randomness of a right vector, then changes it
            base = [x % ref.p for x in ref.c.encode(cfg.gen_meas(ch))]
            spy.vec = base
            spy.jr.clear()
            s.shard(ctx, None, nonce, rand)
            got = A.adaptive_from(ch, cfg, base, spy.jr[0]) \
                if spy.jr[0] else None
            if got is not None:
                log.probe('adaptive')
                log.probe('adaptive-late')
                spy.vec = got[0]
                pub, shares = s.shard(ctx, None, nonce, rand)
                return pub, shares, f'adaptive at {got[1]}'
            spy.vec, label = A.bad_vector(ch, cfg, ref.c)
            pub, shares = s.shard(ctx, None, nonce, rand)
            return pub, shares, label
        if how == 3:
            jr = spy.jr[0]
            if not jr:
                return pub, shares, label
            vec = A.adaptive_vector(cfg, jr, 2 + ch.draw(1000))
            if vec is None:
                return pub, shares, label
            log.probe('adaptive')
            spy.vec = vec
            pub, shares = s.shard(ctx, None, nonce, rand)
            return pub, shares, 'adaptive to joint randomness'
        # Test points under a key of the attacker's own choice.
        log.probe('known-test-point')
        spy.vec, label = A.bad_vector(ch, cfg, ref.c)
        mine = ch.fresh(32, 'attackerkey')
        if mine == key:
            mine = bytes(32)
        pts = test_points(ref, mine, ctx, nonce)
        vec = list(spy.vec)

        def forge(i, pf, jr):
            return A.patched_proof(ref, pf, jr, vec, pts[i])
        pub, shares = ref.shard_vec(ctx, vec, nonce, rand, forge=forge)
        return pub, shares, f'{label}, test points guessed'
    if how == 6:
        return lucky(ch, log, cfg, ref, ctx, key, nonce, rand)
    log.probe('plain-cheat')
    vec, label = A.bad_vector(ch, cfg, ref.c)
    pub, shares = ref.shard_vec(ctx, vec, nonce, rand)
    return pub, shares, label


def test_points(ref, key, ctx, nonce):
    ng, q = len(ref.c.gadgets), ref.flp.query_rand_len
    qr = ref.query_rands(key, ctx, nonce)
    return [qr[i * q:(i + 1) * q][-ng:] for i in range(ref.proofs)]


def lucky(ch, log, cfg, ref, ctx, key, nonce, rand):
    """A client whose guesses all came true but one: forged against the test
    points that will be used, except for a single check."""
    vec, label = A.bad_vector(ch, cfg, ref.c)
    pts = test_points(ref, key, ctx, nonce)
    miss = ch.draw(ref.proofs)
    what = ch.draw(3)
    gadget = ch.draw(len(pts[0]))

    def forge(i, pf, jr):
        t = list(pts[i])
        if i == miss:
            if what == 0:
                return pf           # circuit output not zero
            if what == 1:
                return A.patched_proof(ref, pf, jr, vec)
            t[gadget] = (t[gadget] + 1 + ch.draw(1000)) % ref.p
        return A.patched_proof(ref, pf, jr, vec, t)
    pub, shares = ref.shard_vec(ctx, vec, nonce, rand, forge=forge)
    try:
        flow.verify(cfg.refimpl(), cfg.shares, key, ctx, b'', nonce, pub,
                    shares, 1)
    except flow.Refused:
        log.probe('all-but-one')
        if ref.proofs > 1 and what == 0:
            log.probe('all-but-one-proof')
        return pub, shares, f'{label}, proof {miss} fails check {what} only'
    return None     # nothing was left to fail


def long_config(ch, kind):
    """Many entries, chunks and circuit outputs."""
    n = ch.weighted([(ch.between(17, 24), 4), (ch.between(33, 40), 3),
                     (ch.between(65, 70), 2), (ch.between(129, 140), 1),
                     (ch.between(257, 280), 1)])
    chunk = ch.pick([n, 1, n + 1, 4, n // 2 + 1])
    s = ch.between(2, 4)
    if kind == 'sum':
        return C.P3('sum', s, mx=(1 << min(n, 62)) + ch.draw(1000))
    if kind == 'histogram':
        return C.P3(kind, s, length=n, chunk=chunk)
    if kind == 'multihot':
        return C.P3(kind, s, length=n, mx=ch.between(1, n), chunk=chunk)
    args = dict(length=n, mx=1, chunk=chunk)
    if kind == 'multiproof':
        args.update(p=ch.pick([C.R.P64, C.R.P128]), proofs=ch.between(1, 3))
    return C.P3(kind, s, **args)


def sweep(ch, log, kind):
    """One wrong entry after another, at every place of the vector, the last
    chunk often cut short."""
    if kind in ('histogram', 'multihot') and ch.chance(400):
        size = ch.pick([9, 15, 16, 17, 31, 32, 33, 34, 63, 64, 65, 66])
        args = dict(length=size, chunk=C.gen_chunk(ch, size))
        if kind == 'multihot':
            args['mx'] = ch.between(1, size)
        cfg = C.P3(kind, 2, **args)
    else:
        cfg = C.gen_prio3(ch, kinds=(kind,), cap=1500, shares=2)
    n = len(cfg.ref().c.encode(cfg.gen_meas(ch)))
    if hasattr(cfg, 'chunk') and n > 3 and ch.chance(700):
        tail = ch.between(1, 3)
        fit = [x for x in range(2, n) if n % x == tail % x]
        args = dict(cfg.args)
        del args['shares']
        if fit:
            args['chunk'] = ch.pick(fit)
            cfg = C.P3(kind, 2, **args)
            log.probe('short-tail')
    ctx = C.gen_ctx(ch)
    describe(log, cfg, ctx)
    ref = cfg.ref()
    impl = cfg.sut()
    v, spy = A.evil_client(cfg)
    evil = D.S.Sut(v)
    most = max(4, min(24, 25000 // cfg.weight()))
    places = list(range(n))
    if n > most:
        places = [0, 1, n - 3, n - 2, n - 1]
        places += ch.shuffle(range(2, n - 3))[:most - 5]
    for i in places:
        vec = None
        if kind in ('histogram', 'multihot', 'mixed') and ch.draw(2):
            vec = A.lone_flip(ch, cfg, ref.c, i)
        if vec is None:
            vec = A.lone_error(ch, cfg, ref.c, i)
        if vec is None:
            continue
        key, nonce = ch.fresh(impl.key_size, 'key'), ch.fresh(16, 'nonce')
        rand = ch.fresh(impl.rand_size, 'evilrand')
        spy.vec = vec
        pub, shares = evil.shard(ctx, None, nonce, rand)
        log.fault('wrong-entry', 'client', f'{vec[i]} at {i} of {n}')
        try:
            flow.verify(impl, cfg.shares, key, ctx, b'', nonce, pub, shares,
                        1)
        except flow.Refused:
            log.probe('lone-error')
            log.ok()
            continue
        check(False, 'invalid-measurement-counted',
              lambda: f'{cfg.desc()}: only entry {i} of {n} is wrong: {vec}')


def run(ch, log):
    kind = ch.pick(C.PRIO3)
    if kind != 'count' and ch.chance(250):
        return sweep(ch, log, kind)
    if kind not in ('count', 'mixed') and ch.chance(250):
        cfg = long_config(ch, kind)
        log.probe('long-vector')
    else:
        cfg = C.gen_prio3(ch, kinds=(kind,), cap=2500, big=ch.chance(200))
    ctx = C.gen_ctx(ch)
    describe(log, cfg, ctx)
    impl = cfg.sut()
    key = ch.fresh(impl.key_size, 'key')
    most = max(2, min(9, 12000 // cfg.weight()))
    n = ch.between(1, most)
    nonces = fresh_nonces(ch, n)
    reports = []
    honest = 0
    for i in range(n):
        if ch.chance(250) and honest < cfg.max_batch():
            m = cfg.gen_meas(ch)
            pub, shares = impl.shard(ctx, m, nonces[i],
                                     ch.blob(impl.rand_size, f'rand{i}'))
            reports.append(D.Report(nonces[i], pub, shares, m))
            honest += 1
        else:
            got = cheat(ch, log, cfg, ctx, key, nonces[i])
            if got is not None:
                if 'with right' in got[2]:
                    log.probe('strided')
                log.ev('evil', 'report', f'{len(reports)} {got[2]}')
                reports.append(D.Report(nonces[i], got[0], got[1], None,
                                        False, got[2]))
    if not reports:
        return
    topology = 'pingpong' if cfg.shares == 2 and ch.draw(3) == 2 else 'star'
    task = D.Task(cfg, ctx, key, buckets=ch.between(1, 2), topology=topology)
    sim = Sim(ch, log, FaultPlan(ch, force_none=ch.chance(300)))
    coll = D.run_deployment(sim, task, reports,
                            lambda k, res: b'' if k == 0 else None)
    ap, accepted, shares, result = coll.results[0]
    for i, rep in enumerate(reports):
        if rep.honest:
            check(i in accepted, 'honest-report-not-counted',
                  f'{cfg.desc()} report {i}')
        else:
            check(i not in accepted, 'invalid-measurement-counted',
                  lambda: f'{cfg.desc()}: {rep.note}; result {result!r:.100}')
            log.probe('rejected')
        log.ok()
    if accepted:
        want = cfg.plain([reports[i].meas for i in accepted])
        check(result == want, 'wrong-result',
              lambda: f'{cfg.desc()} got {result} want {want}')
        log.ok()
