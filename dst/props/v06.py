"""Ping-pong parties answer any input with a state and reject what is out of
phase."""
from .. import flow, sut, toy
from .. import ref as R
from ..kernel import Tasks, Violation
from .common import C, REAL, STUB, check, describe, fresh_nonces

RUNS = {'quick': 10000, 'thorough': 90000}
RULE = 'One decision per delivery to a ping-pong entry point.'
MUST_REACH = ['cfg:toy', 'cfg:count', 'cfg:histogram', 'cfg:poplar1',
              'hostile-init', 'hostile-continue', 'm:type', 'm:length',
              'm:other-round', 'm:other-report', 'm:junk', 'm:truncate',
              'm:extend', 'm:retype', 'm:content', 'm:splice', 'bad-argument',
              'honest-finished', 'm:late']
KINDS = {'Start', 'Continued', 'Finished', 'FinishedWithOutbound', 'Rejected'}


def prefix(i):
    return [i % 6]


def gen(ch):
    k = ch.draw(6)
    if k < 3:
        rounds = toy.gen_rounds(ch, 6, 40)
        return toy.ToyCfg(rounds, toy.gen_pad(ch, rounds, 15))
    if k == 3:
        return C.gen_poplar(ch, max_bits=33)
    return C.gen_prio3(ch, cap=600, big=False, shares=2)


class Party:
    """Both roles of one report, on the code under test and in the model."""

    def __init__(self, cfg, key, ctx, ap, nonce, pub, inputs):
        self.cfg = cfg
        self.args = (key, ctx, ap, nonce, pub)
        self.inputs = inputs
        self.pp = cfg.make_pp()
        impl = cfg.sut() if cfg.kind == 'toy' else cfg.refimpl()
        self.rp = toy.RefPP(impl)
        self.states = []        # (code state, model state) per step
        self.msgs = []

    def offer(self, step, inbound, args=None, inputs=None):
        """What both sides answer to an inbound message at a step."""
        key, ctx, ap, nonce, pub = args or self.args
        inp = inputs or self.inputs
        try:
            if step == 0:
                got = self.pp.ping_pong_leader_init(key, ctx, ap, nonce, pub,
                                                    inp[0])
            elif step == 1:
                got = self.pp.ping_pong_helper_init(key, ctx, ap, nonce, pub,
                                                    inp[1], inbound)
            elif step % 2 == 0:
                got = self.pp.ping_pong_leader_continued(
                    ctx, ap, self.states[step - 2][0], inbound)
            else:
                got = self.pp.ping_pong_helper_continued(
                    ctx, ap, self.states[step - 2][0], inbound)
        except Exception as e:
            raise Violation('raised', f'{self.cfg.desc()} step {step}: '
                                      f'{e!r:.150}')
        if step == 0:
            want = self.rp.leader_init(key, ctx, ap, nonce, pub, inp[0])
        elif step == 1:
            want = self.rp.helper_init(key, ctx, ap, nonce, pub, inp[1],
                                       inbound)
        else:
            want = self.rp.continued(step % 2 == 0, ctx, ap,
                                     self.states[step - 2][1], inbound)
        return got, want

    def same(self, got, want):
        if flow.name(got) != want[0]:
            return False
        if want[0] in ('Continued', 'FinishedWithOutbound') and \
                got.outbound != want[-1]:
            return False
        if want[0] in ('Finished', 'FinishedWithOutbound'):
            return self.pp.encode_out_share(got.out_share) == want[1]
        return True


def is_state(x):
    return isinstance(x, sut.pp_mod.State) and flow.name(x) in KINDS


def hostile(ch, log, msg, pool):
    """A message that is not the honest one."""
    how = ch.draw(11)
    if how == 0:
        log.probe('m:type')
        return bytes([ch.pick([3, 0, 1, 2, 255, 4, 128])]) + msg[1:]
    if how == 1:
        log.probe('m:length')
        b = bytearray(msg)
        o = 1
        if ch.draw(2) and msg[0] == 1:
            o = 5 + int.from_bytes(msg[1:5], 'big')
        v = int.from_bytes(b[o:o + 4], 'big')
        v = ch.pick([v + 1, max(v - 1, 0), 0, 2**32 - 1, 2**31, v + 4])
        b[o:o + 4] = v.to_bytes(4, 'big')
        return bytes(b)
    if how == 2:
        log.probe('m:other-round')
        return ch.pick(pool[0])
    if how == 3:
        log.probe('m:other-report')
        return ch.pick(pool[1])
    if how == 4:
        log.probe('m:junk')
        return ch.pick([b'', b'\0', b'\1', b'\2', b'\3', b'\0\0\0\0\0',
                        b'\2\0\0\0\0', b'\1' + bytes(8), b'\xff' * 9,
                        bytes(50), ch.fresh(ch.between(1, 80), 'junk')])
    if how == 5:
        log.probe('m:truncate')
        return msg[:ch.draw(len(msg))]
    if how == 6:
        log.probe('m:extend')
        return msg + ch.pick([b'\0', bytes(4), msg, b'\xff', bytes(5)])
    if how == 7:
        log.probe('m:retype')
        t, items = R.pp_decode(msg)
        nt = ch.draw(3)
        return R.pp_encode(nt, *(items + [items[0]])[:ch.between(1, 3)])
    if how == 8:
        log.probe('m:splice')
        t, items = R.pp_decode(msg)
        o = ch.pick(pool[0] + pool[1])
        _, oit = R.pp_decode(o)
        items[ch.draw(len(items))] = ch.pick(oit)
        return R.pp_encode(t, *items)
    if how == 9:
        log.probe('m:items')
        t, items = R.pp_decode(msg)
        return R.pp_encode(t, *items[::-1][:ch.between(1, 2)])
    log.probe('m:content')
    b = bytearray(msg)
    k = ch.draw(8 * len(b))
    b[k // 8] ^= 1 << (k % 8)
    return bytes(b)


def run(ch, log):
    cfg = gen(ch)
    ctx = C.gen_ctx(ch)
    describe(log, cfg, ctx)
    impl = cfg.sut()
    key = ch.blob(impl.key_size, 'key')
    n = ch.between(1, 3)
    nonces = fresh_nonces(ch, n + 1)
    parties, pools = [], []
    for i in range(n + 1):
        m = cfg.gen_meas(ch)
        pub, inputs = impl.shard(ctx, m, nonces[i],
                                 ch.blob(impl.rand_size, f'rand{i}'))
        ap = b''
        if cfg.poplar:
            if i == 0:
                level = cfg.gen_level(ch)
                pap = cfg.param(level, cfg.gen_prefixes(ch, level, [m]))
            ap = pap
        elif cfg.kind == 'toy':
            ap = toy.gen_param(ch)
        pt = Party(cfg, key, ctx, ap, nonces[i], pub, inputs)
        parties.append(pt)
        pools.append(toy.exchange(pt.rp, key, ctx, ap, nonces[i], pub,
                                  inputs)[1])
    tasks = Tasks(ch, log)
    for i in range(n):
        tasks.add(f'r{i}', one(ch, log, cfg, parties[i],
                               (pools[i], pools[i + 1])))
    tasks.run()


def one(ch, log, cfg, pt, pool):
    step, inbound = 0, None
    while True:
        for _ in range(ch.weighted([(1, 3), (0, 1), (2, 2), (4, 1)])):
            attack(ch, log, cfg, pt, step, inbound, pool)
            yield f'attack{step}'
        got, want = pt.offer(step, inbound)
        log.ok()
        check(is_state(got), 'not-a-state', repr(got)[:80])
        # Whatever was delivered before, the message the peer sent for this
        # round is processed.
        check(pt.same(got, want), 'honest-message-mishandled',
              lambda: f'{cfg.desc()} step {step}: {flow.name(got)}, expected '
                      f'{want[0]}')
        if ch.chance(300):
            got = sut.load(sut.save(got))
            log.fault('state-stored')
        pt.states.append((got, want))
        yield f'step{step}'
        if want[0] in ('Rejected', 'Finished'):
            break
        inbound = got.outbound
        pt.msgs.append(inbound)
        if want[0] == 'FinishedWithOutbound' and step + 1 > cfg.rounds + 1:
            break
        step += 1
    check(want[0] == 'Finished', 'honest-run-not-finished',
          f'{cfg.desc()} {want[0]}')
    log.probe('honest-finished')
    for _ in range(ch.draw(4)):
        settled(ch, log, cfg, pt, pool)
        yield 'late'


def settled(ch, log, cfg, pt, pool):
    """A message for a party that has nothing left to receive."""
    log.fault('late-message')
    log.probe('m:late')
    over = [k for k, (_, w) in enumerate(pt.states)
            if w[0] in ('Finished', 'FinishedWithOutbound')]
    k = ch.pick(over)
    state = pt.states[k][0]
    if ch.chance(200):
        state = sut.pp_mod.Rejected()
    msg = ch.pick(pt.msgs + pool[0] + pool[1])
    if ch.draw(2):
        msg = hostile(ch, log, msg, pool)
    fn = pt.pp.ping_pong_leader_continued if k % 2 == 0 else \
        pt.pp.ping_pong_helper_continued
    try:
        got = fn(pt.args[1], pt.args[2], state, msg)
    except Exception:
        # only a state that awaits a message is owed an answer
        log.ok()
        return
    check(flow.name(got) == 'Rejected', 'late-message-accepted',
          f'{cfg.desc()} {flow.name(state)}: {flow.name(got)}')
    log.ok()


def attack(ch, log, cfg, pt, step, inbound, pool):
    args, inputs = None, None
    msg = inbound
    if step <= 1 and ch.chance(500):
        log.probe('bad-argument')
        log.fault('bad-argument')
        args = list(pt.args)
        inputs = list(pt.inputs)
        w = ch.draw(5)
        junk = [b'', b'\0', bytes(7), b'\xff' * 40,
                ch.fresh(ch.between(1, 90), 'x')]
        if w == 0:
            inputs[step] = ch.pick(junk + [inputs[1 - step]])
        elif w == 1:
            args[4] = ch.pick(junk + [args[4] + b'\0'])
        elif w == 2:
            args[2] = ch.pick(junk + [args[2] + b'\0'])
        elif w == 3 and cfg.kind == 'toy':
            args[1] = b'another' + args[1]
        else:
            inputs[step] = inputs[step][:-1]
    elif step > 0:
        msg = hostile(ch, log, inbound, pool)
        log.fault('hostile-message')
        log.probe('hostile-init' if step == 1 else 'hostile-continue')
    else:
        return
    got, want = pt.offer(step, msg, args, inputs)
    log.ok()
    check(is_state(got), 'not-a-state', repr(got)[:80])
    check(flow.name(got) == 'Rejected' or pt.same(got, want),
          'out-of-phase-accepted',
          lambda: f'{cfg.desc()} step {step}: {flow.name(got)}, expected '
                  f'{want[0]}')
