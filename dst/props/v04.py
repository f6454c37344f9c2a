"""Poplar1 never counts a malformed report."""
from .. import ref as R
from . import popgen as PG
from .common import C, D, FaultPlan, REAL, STUB, Sim, check, describe, \
    fresh_nonces

RUNS = {'quick': 2500, 'thorough': 40000}
RULE = ('One decision per report and collection (accepted or rejected) and '
        'one per collected result.')
ASSUMPTIONS = ['Cheating clients do not know the verification key; soundness '
               'error is below 2^-50 per evaluation.']
MUST_REACH = ['scaled', 'wrong-authenticator', 'constant-weights',
              'guessed-weights', 'bad-correlation', 'twisted', 'multi-path',
              'rejected', 'malformed-elsewhere-accepted', 'leaf-level',
              'inner-level', 'pingpong', 'star', 'crash', 'drop', 'dup',
              'delay', 'many-candidates']


def run(ch, log):
    cfg = C.gen_poplar(ch, max_bits=300 if ch.chance(250) else 64)
    ctx = C.gen_ctx(ch)
    describe(log, cfg, ctx)
    impl = cfg.sut()
    key = ch.fresh(impl.key_size, 'key')
    n = ch.between(1, max(2, min(7, 60 // cfg.bits)))
    nonces = fresh_nonces(ch, n)
    alphas = [cfg.gen_meas(ch) for _ in range(n)]
    params = PG.param_sequence(ch, cfg, alphas, most=3, wide=120)
    if len(params[0][1]) > 16:
        log.probe('many-candidates')
    reports, evil = [], {}
    for i in range(n):
        if ch.chance(300):
            pub, shares = impl.shard(ctx, alphas[i], nonces[i],
                                     ch.blob(impl.rand_size, f'rand{i}'))
            reports.append(D.Report(nonces[i], pub, shares, alphas[i]))
        else:
            c = PG.cheat(ch, log, cfg, ctx, nonces[i], params)
            evil[i] = c
            log.ev('evil', 'report', f'{i} {c.note}')
            reports.append(D.Report(nonces[i], c.pub, c.shares, None, False,
                                    c.note))
    aps = [cfg.param(*p) for p in params]
    topology = 'pingpong' if ch.draw(3) == 2 else 'star'
    log.probe(topology)
    task = D.Task(cfg, ctx, key, buckets=ch.between(1, 2), topology=topology)
    sim = Sim(ch, log, FaultPlan(ch, force_none=ch.chance(300)))
    coll = D.run_deployment(sim, task, reports,
                            lambda k, res: aps[k] if k < len(aps) else None)
    for (level, pres), (ap, accepted, _, result) in zip(params, coll.results):
        log.probe('leaf-level' if level == cfg.bits - 1 else 'inner-level')
        want = [0] * len(pres)
        for i, rep in enumerate(reports):
            if i in evil:
                ok, counts = evil[i].expect(level, pres)
                what = f'{cfg.desc()} level {level}: {rep.note}'
                if ok:
                    log.probe('malformed-elsewhere-accepted')
                    check(i in accepted, 'well-formed-level-rejected', what)
                else:
                    log.probe('rejected')
                    check(i not in accepted, 'malformed-report-counted', what)
            else:
                counts = cfg.contribution_at(rep.meas, pres)
                check(i in accepted, 'honest-report-not-counted',
                      f'{cfg.desc()} level {level}')
            log.ok()
            if i in accepted:
                want = [a + b for a, b in zip(want, counts)]
        if accepted:
            check(list(result) == want, 'wrong-counts',
                  lambda: f'{cfg.desc()} level {level} got {result} '
                          f'want {want}')
            log.ok()
