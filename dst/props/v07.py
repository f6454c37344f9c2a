"""Ping-pong finishes in the prescribed number of messages with the same
outputs."""
from .. import flow, toy
from .common import C, D, FaultPlan, REAL, STUB, Sim, check, describe, \
    fresh_nonces

RUNS = {'quick': 10000, 'thorough': 80000}
RULE = ('One decision per report: messages exchanged, final states and both '
        'output shares.')
MUST_REACH = ['cfg:toy', 'cfg:poplar1', 'cfg:count', 'cfg:sum',
              'cfg:histogram', 'rounds:1', 'rounds:2', 'rounds:3', 'rounds:4',
              'rounds:5', 'rounds:6', 'rounds:7', 'rounds:many',
              'rounds:256+', 'long-messages', 'crash', 'crash_point',
              'drop', 'dup', 'delay', 'replay', 'misdirect',
              'restored-checkpoint', 'no-fault']


def prefix(i):
    return [i % 5]


def run(ch, log):
    k = ch.draw(5)
    if k < 3:
        rounds = toy.gen_rounds(ch)
        cfg = toy.ToyCfg(rounds, toy.gen_pad(ch, rounds))
        if cfg.pad > 3:
            log.probe('long-messages')
    elif k == 3:
        cfg = C.gen_poplar(ch, max_bits=33)
    else:
        cfg = C.gen_prio3(ch, cap=600, big=False, shares=2)
    ctx = C.gen_ctx(ch)
    describe(log, cfg, ctx)
    many = cfg.rounds > 7
    log.probe('rounds:many' if many else f'rounds:{cfg.rounds}')
    if cfg.rounds > 255:
        log.probe('rounds:256+')
    impl = cfg.sut()
    key = ch.blob(impl.key_size, 'key')
    n = ch.between(1, 2 if many else 4)
    nonces = fresh_nonces(ch, n)
    reports = []
    meas = [cfg.gen_meas(ch) for _ in range(n)]
    for i in range(n):
        pub, shares = impl.shard(ctx, meas[i], nonces[i],
                                 ch.blob(impl.rand_size, f'rand{i}'))
        reports.append(D.Report(nonces[i], pub, shares, meas[i]))
    if cfg.poplar:
        level = cfg.gen_level(ch)
        ap = cfg.param(level, cfg.gen_prefixes(ch, level, meas,
                                              empty=20))
    else:
        ap = toy.gen_param(ch) if cfg.kind == 'toy' else b''
    task = D.Task(cfg, ctx, key, topology='pingpong')
    plan = FaultPlan(ch)
    if not plan.rate:
        log.probe('no-fault')
    sim = Sim(ch, log, plan)
    coll = D.run_deployment(sim, task, reports,
                            lambda k, res: ap if k == 0 else None)
    _, accepted, _, _ = coll.results[0]
    for i, rep in enumerate(reports):
        job = (0, i)
        what = f'{cfg.desc()} report {i}'
        check(i in accepted, 'honest-report-not-finished', what)
        msgs = sim.pp_msgs[job]
        check(sorted(msgs) == list(range(cfg.rounds + 1)),
              'wrong-number-of-messages',
              lambda: f'{what}: {sorted(msgs)} for {cfg.rounds} rounds')
        hist = sim.pp_states[job]
        last = cfg.rounds
        outs = flow.verify(impl, 2, key, ctx, ap, rep.nonce, rep.pub,
                           rep.shares, cfg.rounds)
        for step, seen in sorted(hist.items()):
            # Repeated and resumed executions of a step all agree.
            check(len(seen) == 1, 'step-differs', f'{what} step {step}')
            name, out = next(iter(seen))
            if step < last:
                want, o = 'Continued', None
            elif step == last:
                want, o = 'FinishedWithOutbound', outs[step % 2]
            else:
                want, o = 'Finished', outs[step % 2]
            check(name == want, 'wrong-state',
                  f'{what} step {step}: {name}, expected {want}')
            check(out == o, 'wrong-output-share', f'{what} step {step}')
        check(max(hist) == last + 1, 'missing-final-state', what)
        log.ok()
