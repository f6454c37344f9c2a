"""Shares hide the measurement and are tied to fresh randomness."""
from .. import flow
from .. import ref as R
from .. import sut as S
from ..kernel import Tasks, Violation
from .common import C, REAL, STUB, check, describe, h8
from .v13 import OtherAlgorithm, near

RUNS = {'quick': 3600, 'thorough': 36000}
RULE = ('One decision per pair of reports made from the same randomness, per '
        'pair of masks, per altered secret, per wrong-sized input and per '
        'search for a secret in what others receive.')
ASSUMPTIONS = ['Accidental agreement of a 64-bit field element or of a '
               '16-byte string of expanded randomness is neglected.']
MUST_REACH = ['cfg:count', 'cfg:sum', 'cfg:sumvec', 'cfg:histogram',
              'cfg:multihot', 'cfg:multiproof', 'cfg:mixed', 'cfg:poplar1',
              'rng-snapshot', 'rng-stuck', 'rng-short', 'rng-long',
              'nonce-size', 'masks', 'secret-changed', 'no-leak',
              'other-context', 'other-algorithm', 'other-nonce',
              'three-or-more', 'purposes', 'same-secret']


def prefix(i):
    return [i % 10]


def gen(ch):
    k = ch.draw(10)
    if k >= 7:
        return C.gen_poplar(ch, max_bits=70)
    return C.gen_prio3(ch, kinds=(C.PRIO3[k],), cap=900, big=ch.chance(200))


class Device:
    """A client whose randomness source may repeat or misbehave."""

    def __init__(self, ch, log, size, tag):
        self.ch, self.log, self.size = ch, log, size
        self.stuck = ch.chance(300)
        if self.stuck:
            log.fault('rng-stuck')
            unit = ch.pick([bytes(32), b'\xff' * 32, ch.fresh(32, tag)])
            self.rand = (unit * (size // 32 + 1))[:size]
        else:
            self.rand = ch.fresh(size, tag)

    def snapshot(self):
        """The state of the source came back after a restore."""
        self.log.fault('rng-snapshot')
        return self.rand


def run(ch, log):
    cfg = gen(ch)
    ctx = C.gen_ctx(ch)
    describe(log, cfg, ctx)
    if cfg.shares > 2:
        log.probe('three-or-more')
    impl = cfg.sut()
    tasks = Tasks(ch, log)
    for d in range(ch.between(1, 3)):
        dev = Device(ch, log, impl.rand_size, f'dev{d}')
        nonce = ch.blob(16, f'nonce{d}')
        fn = poplar if cfg.poplar else prio3
        tasks.add(f'd{d}', fn(ch, log, cfg, impl, ctx, nonce, dev))
        tasks.add(f's{d}', sizes(ch, log, cfg, impl, ctx, nonce, dev))
    tasks.run()


def sizes(ch, log, cfg, impl, ctx, nonce, dev):
    """Short and over-long reads from the randomness source."""
    m = cfg.gen_meas(ch)
    for _ in range(ch.between(1, 3)):
        rand, nc = dev.rand, nonce
        how = ch.draw(4)
        if how == 0:
            log.fault('rng-short')
            k = ch.pick([1, 16, 32, len(rand), ch.between(1, len(rand))])
            rand = rand[:max(0, len(rand) - k)]
        elif how == 1:
            log.fault('rng-long')
            rand = rand + bytes(ch.pick([1, 16, 32, ch.between(1, 64)]))
        else:
            log.fault('nonce-size')
            nc = ch.pick([b'', nonce[:-1], nonce + b'\0', nonce * 2,
                          nonce[:ch.draw(16)], nonce[:8]])
        yield 'size'
        try:
            impl.shard(ctx, m, nc, rand)
        except Exception:
            log.ok()
            continue
        raise Violation('wrong-size-accepted',
                        f'{cfg.desc()} rand {len(rand)} nonce {len(nc)}')


def must_differ(log, what, a, b):
    """No position of two vectors agrees."""
    check(len(a) == len(b) and not any(x == y for x, y in zip(a, b)),
          'mask-repeats', what)
    log.ok()


def leaks(log, cfg, owner_secrets, received):
    """owner_secrets: {owner: [bytes]}; received: {who: bytes}.  No secret
    may appear in anything sent to somebody else."""
    for owner, secs in owner_secrets.items():
        for s in secs:
            for who, data in received.items():
                if who == owner:
                    continue
                for k in range(0, len(s) - 15, 8):
                    check(s[k:k + 16] not in data, 'secret-leaked',
                          f'{cfg.desc()} secret of {owner} in what '
                          f'{who} receives')
    log.probe('no-leak')
    log.ok()


# ------------------------------------------------------------------- Prio3

def leader_vectors(cfg, ref, share):
    """(measurement share, proofs share) in the leader's encoded share."""
    a = ref.c.meas_len * ref.enc
    b = a + ref.flp.proof_len * ref.proofs * ref.enc
    check(len(share) == b + (32 if ref.jr else 0), 'share-length',
          cfg.desc())
    return R.dec_vec(ref.p, share[:a]), R.dec_vec(ref.p, share[a:b])


def prio3(ch, log, cfg, impl, ctx, nonce, dev):
    ref = cfg.ref()
    n, p = cfg.shares, ref.p
    m = cfg.gen_meas(ch)
    rand = dev.rand
    pub, inputs = impl.shard(ctx, m, nonce, rand)
    yield 'first'
    # the device comes back from a snapshot and reports something else
    for _ in range(2):
        m2 = cfg.gen_meas(ch)
        pub2, inputs2 = impl.shard(ctx, m2, nonce, dev.snapshot())
        yield 'again'
        check(inputs2[1:] == inputs[1:], 'share-depends-on-measurement',
              cfg.desc())
        check(pub2[32:] == pub[32:] if ref.jr else pub2 == pub,
              'public-share-depends-on-measurement', cfg.desc())
        log.ok()
    # one secret changes
    step = 2 if ref.jr else 1
    j = 1 + ch.draw(n - 1)
    r2 = bytearray(rand)
    at = 32 * step * (j - 1) + ch.draw(32)
    r2[at] ^= 1 << ch.draw(8)
    pub2, inputs2 = impl.shard(ctx, m, nonce, bytes(r2))
    yield 'secret'
    log.probe('secret-changed')
    check([x for i, x in enumerate(inputs2) if i not in (0, j)] ==
          [x for i, x in enumerate(inputs) if i not in (0, j)] and
          inputs2[j] != inputs[j], 'secret-not-used', f'{cfg.desc()} {j}')
    for x, y in zip(leader_vectors(cfg, ref, inputs[0]),
                    leader_vectors(cfg, ref, inputs2[0])):
        must_differ(log, f'{cfg.desc()} leader share not masked by '
                    f'aggregator {j}', x, y)
    if n > 2 and dev.stuck:
        # the same new secret handed to two aggregators in turn
        two = []
        fresh = ch.fresh(32, 'secret')
        for j in ch.shuffle(range(1, n))[:2]:
            at = 32 * step * (j - 1)
            _, inputs2 = impl.shard(ctx, m, nonce, rand[:at] + fresh +
                                    rand[at + 32:])
            two.append(leader_vectors(cfg, ref, inputs2[0]))
        for x, y in zip(*two):
            must_differ(log, f'{cfg.desc()} masks of two aggregators', x, y)
        log.probe('same-secret')
    # masks seen by the aggregators: under repeated randomness they differ
    # between aggregators, contexts and algorithms
    worlds = [('', impl, ctx)]
    c2 = near(ch, ctx)
    if c2 != ctx:
        worlds.append(('other-context', impl, c2))
    worlds.append(('other-algorithm', OtherAlgorithm(
        cfg, ch.pick([1, 2, 256, 1 << 31])).sut(), ctx))
    seen = {}
    key = ch.fresh(32, 'key')
    for what, im, cx in worlds:
        if what:
            log.probe(what)
        wpub, winp = im.shard(cx, m, nonce, dev.snapshot())
        try:
            outs = flow.verify([im] * n, n, [key] * n, [cx] * n, [b''] * n,
                               [nonce] * n, wpub, winp, 1)
        except flow.Refused:
            return          # some other property is broken
        lead = leader_vectors(cfg, ref, winp[0])
        outs = [R.dec_vec(p, o) for o in outs]
        yield f'world {what}'
        for i in range(1, n):
            for c, x in enumerate(outs[i]):
                # different seeds need not be compared
                at = (c, x) if dev.stuck else (c, x, i)
                if at in seen:
                    raise Violation(
                        'mask-repeats', f'{cfg.desc()} aggregators '
                        f'{seen[at]} and {(what, i)} at {c}')
                seen[at] = (what, i)
            log.probe('masks')
            log.ok()
        if ref.jr and dev.stuck:
            parts = [wpub[k:k + 32] for k in range(0, len(wpub), 32)]
            check(len(set(parts)) == len(parts), 'mask-repeats',
                  f'{cfg.desc()} joint randomness parts')
            log.ok()
        if what:
            base = leader_vectors(cfg, ref, inputs[0])
            for x, y in zip(base, lead):
                must_differ(log, f'{cfg.desc()} {what} leader', x, y)
            if ref.jr:
                parts = {wpub[k:k + 32] for k in range(0, len(wpub), 32)}
                old = {pub[k:k + 32] for k in range(0, len(pub), 32)}
                check(not parts & old, 'mask-repeats',
                      f'{cfg.desc()} {what} joint randomness parts')
                log.ok()
    # purposes: the measurement mask is not reused for the proof
    if n == 2:
        mm, pm = masks(cfg, ref, ctx, nonce, m, rand, inputs[0])
        k = min(len(mm), len(pm))
        must_differ(log, f'{cfg.desc()} measurement and proof masks',
                    mm[:k], pm[:k])
        log.probe('purposes')
    if not dev.stuck:
        secrets = {i: [inputs[i]] for i in range(1, n)}
        if ref.jr:
            secrets[0] = [inputs[0][-32:]]
        secrets['client'] = [rand[-32:]]
        got = {i: inputs[i] for i in range(n)}
        got['public'] = pub
        leaks(log, cfg, secrets, got)


def masks(cfg, ref, ctx, nonce, m, rand, share):
    """What was subtracted from measurement and proof."""
    got = {}
    ref.shard_vec(ctx, ref.c.encode(m), nonce, rand,
                  forge=lambda i, pf, jr: got.setdefault(i, pf))
    proof = [x for i in sorted(got) for x in got[i]]
    lm, lp = leader_vectors(cfg, ref, share)
    p = ref.p
    return ([(a - b) % p for a, b in zip(ref.c.encode(m), lm)],
            [(a - b) % p for a, b in zip(proof, lp)])


# ----------------------------------------------------------------- Poplar1

def corr_vectors(cfg, ref, share):
    """The client's part of the correlated randomness, level by level."""
    out, at = [], 48
    for lv in range(cfg.bits):
        p = ref.field(lv)
        k = 2 * R.ENC[p]
        out += R.dec_vec(p, share[at:at + k])
        at += k
    check(at == len(share), 'share-length', cfg.desc())
    return out


def poplar(ch, log, cfg, impl, ctx, nonce, dev):
    ref = cfg.ref()
    a = cfg.gen_meas(ch)
    rand = dev.rand
    pub, inputs = impl.shard(ctx, a, nonce, rand)
    yield 'first'
    for _ in range(3):
        b = list(cfg.gen_meas(ch))
        if ch.draw(2):
            b = list(a)
            b[ch.draw(len(b))] ^= True
        _, inputs2 = impl.shard(ctx, tuple(b), nonce, dev.snapshot())
        yield 'again'
        check(inputs2 == inputs, 'share-depends-on-measurement', cfg.desc())
        log.ok()
    # a correlation seed changes
    j = ch.draw(2)
    r2 = bytearray(rand)
    r2[32 + 32 * j + ch.draw(32)] ^= 1 << ch.draw(8)
    _, inputs2 = impl.shard(ctx, a, nonce, bytes(r2))
    log.probe('secret-changed')
    check(inputs2[j] != inputs[j], 'secret-not-used', f'{cfg.desc()} {j}')
    must_differ(log, f'{cfg.desc()} correlation not masked by {j}',
                corr_vectors(cfg, ref, inputs[0]),
                corr_vectors(cfg, ref, inputs2[0]))
    # and the sharding seed
    r2 = bytearray(rand)
    r2[96 + ch.draw(32)] ^= 1 << ch.draw(8)
    _, inputs2 = impl.shard(ctx, a, nonce, bytes(r2))
    for i in (0, 1):
        must_differ(log, f'{cfg.desc()} correlation share {i} not random',
                    corr_vectors(cfg, ref, inputs[i]),
                    corr_vectors(cfg, ref, inputs2[i]))
    yield 'secret'
    worlds = [('other-nonce', impl, ctx,
               bytes([nonce[0] ^ (1 << ch.draw(8))]) + nonce[1:]),
              ('other-algorithm', OtherAlgorithm(
                  cfg, ch.pick([1, 2, 256, 1 << 31])).sut(), ctx, nonce)]
    c2 = near(ch, ctx)
    if c2 != ctx:
        worlds.append(('other-context', impl, c2, nonce))
    for what, im, cx, nc in worlds:
        log.probe(what)
        wpub, winp = im.shard(cx, a, nc, dev.snapshot())
        yield what
        for i in (0, 1):
            must_differ(log, f'{cfg.desc()} {what} correlation share {i}',
                        corr_vectors(cfg, ref, inputs[i]),
                        corr_vectors(cfg, ref, winp[i]))
        log.probe('masks')
        if what != 'other-algorithm' and not dev.stuck:
            cws = [ref.idpf.decode_public(x) for x in (pub, wpub)]
            must_differ(log, f'{cfg.desc()} {what} correction words',
                        [c[0] for c in cws[0]], [c[0] for c in cws[1]])
    must_differ(log, f'{cfg.desc()} both correlation shares',
                corr_vectors(cfg, ref, inputs[0]),
                corr_vectors(cfg, ref, inputs[1]))
    if not dev.stuck:
        leaks(log, cfg, {0: [inputs[0][:16], inputs[0][16:48]],
                         1: [inputs[1][:16], inputs[1][16:48]],
                         'client': [rand[96:]]},
              {0: inputs[0], 1: inputs[1], 'public': pub})
