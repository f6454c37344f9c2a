"""Every honest report is accepted by all aggregators, with the right output
shares."""
from .. import flow, sut
from ..kernel import Tasks, Violation
from .common import C, REAL, STUB, check, describe, fresh_nonces, h8

RUNS = {'quick': 1600, 'thorough': 16000}
RULE = 'One decision per aggregator verdict and one per reconstructed output.'
MUST_REACH = ['cfg:count', 'cfg:sum', 'cfg:sumvec', 'cfg:histogram',
              'cfg:multihot', 'cfg:multiproof', 'cfg:mixed', 'cfg:poplar1',
              'many-aggregators', 'pingpong', 'star', 'state-stored',
              'dup-step', 'leaf-level', 'inner-level', 'reorder',
              'many-calls', 'long-vector']


def prefix(i):
    return [i % 9]


def gen(ch):
    k = ch.draw(9)
    if k >= 7:
        return C.gen_poplar(ch)
    if ch.chance(30):
        return C.gen_long(ch, shares=ch.pick([2, 2, 3, 5]))
    if ch.chance(12):
        return C.gen_many_calls(ch)
    return C.gen_prio3(ch, kinds=(C.PRIO3[k],), cap=12000)


def run(ch, log):
    cfg = gen(ch)
    if not cfg.poplar and cfg.circuit().calls[0] > 255:
        log.probe('many-calls')
    if not cfg.poplar and cfg.out_len() > 256:
        log.probe('long-vector')
    ctx = C.gen_ctx(ch)
    describe(log, cfg, ctx)
    impl = cfg.sut()
    w = cfg.weight()
    n = ch.between(1, max(1, min(6, 16000 // w)))
    nonces = fresh_nonces(ch, n)
    tasks = Tasks(ch, log)
    for i in range(n):
        m = cfg.gen_meas(ch)
        key = ch.blob(impl.key_size, 'key')
        rand = ch.blob(impl.rand_size, f'rand{i}')
        mode = ch.draw(3)
        tasks.add(f'r{i}', one(ch, log, cfg, impl, ctx, key, nonces[i], m,
                               rand, mode))
    tasks.run()


def one(ch, log, cfg, impl, ctx, key, nonce, m, rand, mode):
    pub, inputs = impl.shard(ctx, m, nonce, rand)
    yield 'shard'
    check(len(inputs) == cfg.shares, 'share-count')
    aps = [b'']
    pre = None
    if cfg.poplar:
        level = cfg.gen_level(ch)
        pre = cfg.gen_prefixes(ch, level, [m], empty=20)
        ap = cfg.param(level, pre)
        p = cfg.ref().field(level)
        want = cfg.contribution_at(m, pre)
        log.probe('leaf-level' if level == cfg.bits - 1 else 'inner-level')
    else:
        ap, p, want = b'', cfg.modulus(), cfg.contribution(m)
    del aps
    if mode == 2 and cfg.shares == 2:
        log.probe('pingpong')
        gen = pp_steps(ch, log, cfg, key, ctx, ap, nonce, pub, inputs)
    else:
        log.probe('star')
        gen = star_steps(ch, log, cfg, impl, key, ctx, ap, nonce, pub, inputs)
    outs = yield from gen
    log.ok(cfg.shares)
    got = flow.add_shares(p, outs)
    check(got == [x % p for x in want], 'wrong-output-shares',
          lambda: f'{cfg.desc()} meas={m!r:.80} got={got!r:.120}')
    log.ok()


def must(cfg, what, fn, *args):
    try:
        return fn(*args)
    except Violation:
        raise
    except Exception as e:
        raise Violation('honest-report-refused',
                        f'{cfg.desc()} {what}: {e!r:.200}')


def star_steps(ch, log, cfg, impl, key, ctx, ap, nonce, pub, inputs):
    """Messages arrive in any order, some twice; states may pass through
    storage between steps."""
    n = cfg.shares
    st, vs = [None] * n, [None] * n
    todo = ch.shuffle(range(n)) if n <= 16 else list(range(n))
    if todo != sorted(todo):
        log.fault('reorder')
    if ch.chance(200):
        todo.append(ch.draw(n))
        log.fault('dup-step')
    for j in todo:
        s, v = must(cfg, f'init {j}', impl.verify_init, key, ctx, j, ap,
                    nonce, pub, inputs[j])
        st[j], vs[j] = s, v
        if n <= 16:
            yield f'init{j}'
    for r in range(cfg.rounds):
        last = r + 1 == cfg.rounds
        if ch.chance(300):
            j = ch.draw(n)
            st[j] = impl.load(impl.save(st[j]))
            log.fault('state-stored')
        # Any aggregator may be the one that combines.
        c = ch.draw(n)
        msg = must(cfg, f'combine {r} at {c}', impl.shares_to_msg, ctx, ap,
                   st[c], vs)
        yield f'combine{r}'
        nxt = [None] * n
        for j in (ch.shuffle(range(n)) if n <= 16 else range(n)):
            nxt[j] = must(cfg, f'next {r} at {j}', impl.verify_next, ctx,
                          st[j], msg, last)
            if n <= 16:
                yield f'next{r}.{j}'
        if last:
            return nxt
        st = [x[0] for x in nxt]
        vs = [x[1] for x in nxt]


def pp_steps(ch, log, cfg, key, ctx, ap, nonce, pub, inputs):
    pp = [cfg.make_pp(), cfg.make_pp()]
    ls = pp[0].ping_pong_leader_init(key, ctx, ap, nonce, pub, inputs[0])
    yield 'pp-init'
    hs = None
    cur, who = ls, 0
    for k in range(cfg.rounds + 2):
        nm = flow.name(cur)
        check(nm != 'Rejected', 'honest-report-refused',
              f'ping-pong step {k} {cfg.desc()}')
        if nm == 'Finished':
            break
        if ch.chance(300):
            log.fault('state-stored')
            ls, hs = sut.load(sut.save(ls)), sut.load(sut.save(hs))
        out = cur.outbound
        who = 1 - who
        if hs is None:
            hs = pp[1].ping_pong_helper_init(key, ctx, ap, nonce, pub,
                                             inputs[1], out)
            cur = hs
        elif who == 0:
            if flow.name(ls) != 'Continued':
                break
            ls = cur = pp[0].ping_pong_leader_continued(ctx, ap, ls, out)
        else:
            if flow.name(hs) != 'Continued':
                break
            hs = cur = pp[1].ping_pong_helper_continued(ctx, ap, hs, out)
        yield f'pp{k}'
    outs = []
    for nd, s in zip(pp, (ls, hs)):
        check(flow.name(s) in ('Finished', 'FinishedWithOutbound'),
              'honest-report-refused', f'ping-pong ended in {flow.name(s)}')
        outs.append(nd.encode_out_share(s.out_share))
    return outs
