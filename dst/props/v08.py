"""Any protocol step can be re-executed after a crash with identical
results."""
from .. import script as X
from ..kernel import Tasks, expand
from .common import C, REAL, STUB, check, describe, fresh_nonces, near, \
    near_same_size

RUNS = {'quick': 2500, 'thorough': 20000}
RULE = 'One decision per re-executed step.'
MUST_REACH = ['cfg:count', 'cfg:sum', 'cfg:sumvec', 'cfg:histogram',
              'cfg:multihot', 'cfg:multiproof', 'cfg:mixed', 'cfg:poplar1',
              'same-object', 'new-object', 'same-state', 'live-run', 'other-process',
              'other-interpreter', 'failing-step', 'pingpong',
              'relative', 'busy']


def prefix(i):
    return [0 if i % 8 else 999, i % 9]


def gen(ch):
    k = ch.draw(9)
    if k >= 7:
        return C.gen_poplar(ch, max_bits=64)
    return C.gen_prio3(ch, kinds=(C.PRIO3[k],), cap=3000,
                       big=ch.chance(100))


def gen_cfgs(ch, gen):
    cfgs = [gen(ch)]
    if ch.draw(2):
        cfgs.append(C.gen_near(ch, cfgs[0]) if ch.chance(350) else gen(ch))
    return cfgs


def gen_reports(ch, log, cfgs, most=3):
    reps = []
    ctx = key = None
    for cfg in cfgs:
        if ctx is None or ch.draw(2):
            ctx = C.gen_ctx(ch)
            key = ch.blob(32, 'key')
        describe(log, cfg, ctx)
        n = ch.between(1, max(1, min(most, 3000 // cfg.weight())))
        impl = cfg.ref()
        ap = b''
        meas = [cfg.gen_meas(ch) for _ in range(n)]
        if cfg.poplar:
            level = cfg.gen_level(ch)
            ap = cfg.param(level, cfg.gen_prefixes(ch, level, meas))
        for i, nonce in enumerate(fresh_nonces(ch, n)):
            damage = None
            if ch.chance(250):
                kind = ch.pick(['input', 'pub', 'vshare', 'msg'])
                damage = (kind, ch.draw(cfg.rounds)
                          if kind in ('vshare', 'msg') else 0,
                          ch.draw(cfg.shares), ch.draw(1 << 20))
            pp = cfg.shares == 2 and ch.chance(350)
            if pp:
                log.probe('pingpong')
            reps.append(X.Report(cfg, ctx, key, nonce, meas[i],
                                 ch.blob(impl.rand_size, f'rand{i}'), ap,
                                 damage, pp))
    for _ in range(ch.weighted([(0, 60), (1, 30), (2, 10)])):
        log.probe('relative')
        reps.append(relative(ch, ch.pick(reps)))
    return reps


def relative(ch, rep):
    """A report that agrees with another one in nearly everything."""
    cfg = rep.cfg
    new = X.Report(cfg, rep.ctx, rep.key, rep.nonce, rep.meas, rep.rand,
                   rep.ap, None if ch.draw(2) else rep.damage, rep.pingpong)
    for _ in range(ch.weighted([(1, 4), (2, 1)])):
        k = ch.draw(7)
        if k == 0:
            new.ctx = near(ch, rep.ctx)
        elif k == 1:
            new.key = near_same_size(ch, rep.key)
        elif k == 2:
            new.nonce = near_same_size(ch, rep.nonce)
        elif k == 3:
            new.rand = near_same_size(ch, rep.rand)
        elif k == 4 and cfg.poplar:
            level = cfg.gen_level(ch)
            new.ap = cfg.param(level, cfg.gen_prefixes(ch, level,
                                                       [rep.meas]))
        elif k == 5:
            new.pingpong = cfg.shares == 2 and not rep.pingpong
        else:
            new.meas = cfg.gen_meas(ch)
    return new


def run(ch, log):
    external = ch.draw(1000) >= 870
    cfgs = gen_cfgs(ch, gen)
    reps = gen_reports(ch, log, cfgs)
    # First execution, each report in a process of its own.
    base = [X.isolated(X.play_all, r) for r in reps]
    for r in base:
        if any(x[3] == X.FAIL for x in r):
            log.probe('failing-step')
    items = [(rep.cfg, op, args, X.visible(op, res), label)
             for rep, recs in zip(reps, base)
             for label, op, args, res in recs]
    shared = {c.key(): X.Machine(c) for c in cfgs}
    tasks = Tasks(ch, log)
    if ch.chance(60):
        log.fault('busy')
        # before the other operations, or among them
        crowd = busy(ch, reps[0], shared)
        if ch.draw(2):
            tasks.add('busy', crowd)
        else:
            drain(crowd)
    for i, rep in enumerate(reps):
        if ch.chance(500):
            tasks.add(f'live{i}', live(log, rep, base[i],
                                       shared[rep.cfg.key()]))
    kept = {c.key(): X.Machine(c, keep=True) for c in cfgs}
    tasks.add('again', again(ch, log, items, shared, kept))
    if ch.chance(500):
        tasks.add('again2', again(ch, log, items, shared, kept))
    tasks.run()
    if ch.chance(300) and items:
        log.fault('other-process')
        compare(log, items, X.isolated(X.rerun, [x[:3] for x in items]),
                'in another process')
    if external:
        seed = ch.between(1, 1000)
        log.fault('other-interpreter', '', seed)
        compare(log, items, X.other_interpreter([x[:3] for x in items], seed),
                'in a restarted interpreter')


def compare(log, items, got, where):
    for (cfg, op, _, want, label), g in zip(items, got):
        check(g == want, 'step-not-repeatable',
              f'{cfg.desc()} {label} differs {where}')
        log.ok()


def live(log, rep, base, machine):
    """The whole life again, on shared objects, states not stored."""
    log.probe('live-run')
    k = 0
    for label, op, args, res in X.play(rep, machine):
        check(k < len(base) and base[k][0] == label and
              X.visible(op, res) == X.visible(op, base[k][3]),
              'step-not-repeatable', f'{rep.cfg.desc()} {label} differs when '
              'run among other operations')
        log.ok()
        k += 1
        yield label
    check(k == len(base), 'step-not-repeatable', 'different number of steps')


def busy(ch, rep, shared):
    """Many other reports pass through the same objects."""
    most = min(ch.pick([20, 40, 70, 140, 280]), 14000 // rep.cfg.weight())
    salt = ch.draw(1 << 30)
    m = shared[rep.cfg.key()]
    for k in range(most):
        for _ in X.play(X.Report(
                rep.cfg, rep.ctx, rep.key, expand(f'busy/{salt}/{k}', 16),
                rep.meas, expand(f'rand/{salt}/{k}', len(rep.rand)), rep.ap,
                None, rep.pingpong), m):
            pass
        if k % 10 == 9:
            yield 'busy'


def drain(gen):
    for _ in gen:
        pass


def again(ch, log, items, shared, kept):
    for _ in range(ch.between(1, min(2 * len(items), 40))):
        cfg, op, args, want, label = ch.pick(items)
        k = ch.draw(3)
        if k == 2:
            log.fault('new-object')
            m = X.Machine(cfg)
        elif k == 1:
            # states in memory are used again, as after a lost reply
            log.fault('same-state')
            m = kept[cfg.key()]
        else:
            log.fault('same-object')
            m = shared[cfg.key()]
        most = 1200 // cfg.weight()
        for _ in range(ch.weighted([(1, 400), (2, 100), (min(12, most), 10),
                                    (min(40, most), 8)])):
            got = X.visible(op, m.execute(op, args))
            check(got == want, 'step-not-repeatable',
                  lambda: f'{cfg.desc()} {label} differs when re-executed: '
                          f'{got!r:.60} / {want!r:.60}')
            log.ok()
        yield label
