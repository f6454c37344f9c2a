"""Poplar1 collections over many levels return exact prefix counts."""
import itertools

from . import popgen as PG
from .common import C, D, FaultPlan, REAL, STUB, Sim, check, describe, \
    fresh_nonces
from .v01 import corrupt, large

RUNS = {'quick': 2400, 'thorough': 26000}
RULE = ('One decision per collection (all prefix counts), one per verdict on '
        'an honest report, one per finished search.')
ASSUMPTIONS = ['Durable records are atomic and checksummed; the shells commit '
               'a report only after all aggregators finished it.']
MUST_REACH = ['search', 'sequence', 'found', 'found-nothing', 'pruned',
              'level-skipped', 'every-level', 'leaf', 'restored-checkpoint',
              'crash', 'crash_point', 'drop', 'dup', 'delay', 'partition',
              'stall', 'disk_error', 'clock_skew', 'pingpong', 'star',
              'damaged', 'over-100-bits', 'sixteen-candidates', 'large-batch',
              'no-candidates']


def batch(ch, cfg, n):
    """Strings with shared prefixes: copies, siblings, strangers."""
    out = [cfg.gen_meas(ch)]
    while len(out) < n:
        how = ch.draw(4)
        m = list(ch.pick(out))
        if how == 1:
            m[ch.draw(cfg.bits)] ^= True
        elif how == 2:
            k = ch.draw(cfg.bits)
            m[k:] = cfg.gen_meas(ch)[k:]
        elif how == 3:
            m = list(cfg.gen_meas(ch))
        out.append(tuple(m))
    return out


def search(ch, log, cfg, alphas, most):
    """A heavy-hitters plan: levels, threshold and candidate generation."""
    t = ch.between(1, max(1, min(4, len(alphas))))
    if cfg.bits <= most and ch.draw(2):
        levels = list(range(cfg.bits))
        log.probe('every-level')
    else:
        n = ch.between(1, min(most, cfg.bits))
        levels = sorted(set([cfg.bits - 1] + [ch.draw(cfg.bits)
                                              for _ in range(n - 1)]))
        if len(levels) < cfg.bits:
            log.probe('level-skipped')
    asked = []

    def plan(k, results):
        if k == len(levels):
            return None
        lv = levels[k]
        if k == 0:
            live = [()]
        else:
            live = [q for q, c in zip(asked[-1][1], results[-1][3] or ())
                    if c >= t]
            if len(live) < len(asked[-1][1]):
                log.probe('pruned')
            if not live:
                return None
        cand = set()
        for q in live:
            gap = lv + 1 - len(q)
            if gap <= 4:
                for ext in itertools.product((False, True), repeat=gap):
                    cand.add(tuple(q) + ext)
            else:
                for a in alphas:
                    if tuple(a[:len(q)]) == tuple(q):
                        cand.add(tuple(a[:lv + 1]))
                for _ in range(2):
                    cand.add(PG.extend_prefix(ch, q, lv, alphas))
        if len(cand) > 16:
            log.probe('sixteen-candidates')
        asked.append((lv, tuple(sorted(cand))))
        return cfg.param(*asked[-1])
    return t, levels, asked, plan


def large_batch(ch, log):
    cfg = C.Pop(ch.between(1, 3))
    n = ch.pick([255, 256, 257, 300, 512, 513])
    ctx = C.gen_ctx(ch)
    describe(log, cfg, ctx)
    log.probe('large-batch')
    usual = cfg.gen_meas(ch)
    meas = [cfg.gen_meas(ch) if ch.chance(150) else usual for _ in range(n)]
    level = cfg.gen_level(ch)
    pres = cfg.gen_prefixes(ch, level, [usual])
    kept, result = large(ch, log, cfg, cfg.param(level, pres), ctx, meas)
    want = [sum(x) for x in zip(*[cfg.contribution_at(m, pres)
                                  for m in kept])]
    check(list(result) == want, 'wrong-counts',
          lambda: f'{cfg.desc()} level {level}, {len(kept)} reports: got '
                  f'{result} want {want}')
    log.ok()


def run(ch, log):
    if ch.chance(15):
        return large_batch(ch, log)
    cfg = C.gen_poplar(ch, max_bits=300)
    ctx = C.gen_ctx(ch)
    describe(log, cfg, ctx)
    if cfg.bits > 100:
        log.probe('over-100-bits')
    impl = cfg.sut()
    key = ch.blob(impl.key_size, 'key')
    n = ch.between(1, max(1, min(9, 80 // cfg.bits)))
    nonces = fresh_nonces(ch, n)
    alphas = batch(ch, cfg, n)
    reports = []
    harm = ch.chance(250)
    for i in range(n):
        pub, shares = impl.shard(ctx, alphas[i], nonces[i],
                                 ch.blob(impl.rand_size, f'rand{i}'))
        rep = D.Report(nonces[i], pub, shares, alphas[i])
        if harm and ch.chance(300):
            rep = corrupt(ch, rep)
            log.probe('damaged')
        reports.append(rep)
    most = max(2, min(8, 90 // (n * max(1, cfg.bits // 8))))
    if ch.draw(3):
        log.probe('search')
        t, levels, asked, plan = search(ch, log, cfg, alphas, most)
    else:
        log.probe('sequence')
        t, levels = None, None
        asked = PG.param_sequence(ch, cfg, alphas, most=most, limit=12)
        if ch.chance(80):
            log.probe('no-candidates')
            if ch.draw(2) and asked[-1][0] < cfg.bits - 1:
                asked = list(asked) + [(cfg.bits - 1, ())]
            else:
                asked = list(asked[:-1]) + [(asked[-1][0], ())]
        aps = [cfg.param(*p) for p in asked]

        def plan(k, res):
            return aps[k] if k < len(aps) else None
    topology = 'pingpong' if ch.draw(3) == 2 else 'star'
    log.probe(topology)
    task = D.Task(cfg, ctx, key, buckets=ch.between(1, 3), topology=topology)
    sim = Sim(ch, log, FaultPlan(ch, force_none=ch.chance(150)),
              heal_at=ch.pick([2_000_000, 6_000_000]))
    coll = D.run_deployment(sim, task, reports, plan)
    check(len(coll.results) == len(asked), 'collections-missing')
    for (level, pres), (ap, accepted, _, result) in zip(asked, coll.results):
        if level == cfg.bits - 1:
            log.probe('leaf')
        want = [0] * len(pres)
        for i, rep in enumerate(reports):
            if rep.honest:
                check(i in accepted, 'honest-report-not-counted',
                      lambda: f'{cfg.desc()} level {level} '
                              f'{sim.refusals}'[:300])
                log.ok()
            if i in accepted:
                want = [a + b for a, b in zip(
                    want, cfg.contribution_at(rep.meas, pres))]
        if accepted:
            check(list(result) == want, 'wrong-counts',
                  lambda: f'{cfg.desc()} level {level} got {result} '
                          f'want {want}')
            log.ok()
    if t and all(r.honest for r in reports):
        truth = {}
        for a in alphas:
            truth[a] = truth.get(a, 0) + 1
        truth = {a for a, c in truth.items() if c >= t}
        got = set()
        if asked and asked[-1][0] == cfg.bits - 1:
            got = {q for q, c in zip(asked[-1][1], coll.results[-1][3])
                   if c >= t}
        check(got == truth, 'wrong-heavy-hitters',
              lambda: f'{cfg.desc()} threshold {t} got {len(got)} '
                      f'want {len(truth)}')
        log.probe('found' if truth else 'found-nothing')
        log.ok()
