"""Malformed encodings are refused."""
from .. import flow
from .. import ref as R
from ..kernel import Tasks
from .common import C, REAL, STUB, check, describe, fresh_nonces

RUNS = {'quick': 5000, 'thorough': 40000}
RULE = 'One decision per damaged byte string.'
MUST_REACH = ['cfg:count', 'cfg:sum', 'cfg:sumvec', 'cfg:histogram',
              'cfg:multihot', 'cfg:multiproof', 'cfg:mixed', 'cfg:poplar1',
              'torn', 'overrun', 'modulus', 'rot', 'padding', 'count',
              'k:pub', 'k:input', 'k:vshare', 'k:msg', 'k:out', 'k:agg',
              'k:param', 'k:pingpong', 'refused-decoding', 'refused-later']


def prefix(i):
    return [i % 9]


def gen(ch):
    k = ch.draw(9)
    if k >= 7:
        return C.gen_poplar(ch, max_bits=64)
    return C.gen_prio3(ch, kinds=(C.PRIO3[k],), cap=2500, big=ch.chance(60))


# ------------------------------------------------ what is canonical

def vec_ok(p, b, n):
    sz = R.ENC[p]
    return len(b) == n * sz and all(
        int.from_bytes(b[i:i + sz], 'little') < p
        for i in range(0, len(b), sz))


def canonical(cfg, ref, kind, r, j, ap, b):
    if cfg.poplar:
        if kind == 'param':
            try:
                ref.decode_param(b)
                return True
            except R.Reject:
                return False
        if kind == 'pub':
            try:
                ref.idpf.decode_public(b)
                return True
            except R.Reject:
                return False
        p = ref.field_for(ap)
        if kind == 'input':
            nb = 48 + 16 * (cfg.bits - 1)
            return len(b) == nb + 64 and \
                vec_ok(R.P64, b[48:nb], 2 * (cfg.bits - 1)) and \
                vec_ok(R.P255, b[nb:], 2)
        if kind == 'vshare':
            return vec_ok(p, b, 3 if r == 0 else 1)
        if kind == 'msg':
            return vec_ok(p, b, 3) if r == 0 else b == b''
        return vec_ok(p, b, ref.agg_len(ap))
    p = ref.p
    jr = 32 if ref.c.jr_len else 0
    if kind == 'param':
        return b == b''
    if kind == 'pub':
        return len(b) == jr * cfg.shares
    if kind == 'input':
        if j:
            return len(b) == 32 + jr
        n = ref.c.meas_len + ref.flp.proof_len * ref.proofs
        sz = R.ENC[p]
        return len(b) == n * sz + jr and vec_ok(p, b[:n * sz], n)
    if kind == 'vshare':
        n = ref.flp.verifier_len * ref.proofs
        sz = R.ENC[p]
        return len(b) == n * sz + jr and vec_ok(p, b[:n * sz], n)
    if kind == 'msg':
        return len(b) == jr
    return vec_ok(p, b, ref.agg_len(b''))


# ------------------------------------------------ damage

def damage(ch, log, cfg, ref, kind, ap, b):
    p = ref.field_for(ap)
    if kind == 'input' and cfg.poplar and ch.draw(2):
        p = R.P255 if ch.draw(2) else R.P64
    sz = R.ENC[p]
    how = ch.draw(6)
    if how == 0:
        log.fault('torn')
        k = ch.pick([1, sz, 8, 16, 32, 2 * sz, len(b)])
        return b[:max(0, len(b) - k)] if ch.draw(3) else b[k:]
    if how == 1:
        log.fault('overrun')
        ext = ch.pick([b'\0', bytes(sz), bytes(8), bytes(16), bytes(32),
                       b'\1', b[-sz:], b, b'\xff' * sz])
        return b + ext if ch.draw(4) else ext + b
    if how in (2, 3) and len(b) >= sz:
        log.fault('modulus')
        m = len(b) // sz
        i = ch.draw(m)
        back = ch.draw(2)
        o = len(b) - sz * (m - i) if back else sz * i
        cur = int.from_bytes(b[o:o + sz], 'little')
        x = ch.pick([p, p + 1, (1 << 8 * sz) - 1, cur + p, cur + 2 * p,
                     p + 2, (1 << (8 * sz - 1)) | cur])
        x %= 1 << 8 * sz
        return b[:o] + x.to_bytes(sz, 'little') + b[o + sz:]
    if how == 4 and kind == 'param' and len(b) >= 6:
        level = int.from_bytes(b[:2], 'big')
        cnt = int.from_bytes(b[2:6], 'big')
        if ch.draw(2):
            log.fault('count')
            if ch.draw(2):
                cnt = ch.pick([cnt + 1, max(cnt - 1, 0), 2**32 - 1, 0,
                               cnt * 2, 1 << 31])
            else:
                level = ch.pick([level + 1, max(level - 1, 0), 65535,
                                 level + 8, max(level - 8, 0)]) % 65536
            return level.to_bytes(2, 'big') + cnt.to_bytes(4, 'big') + b[6:]
        log.fault('padding')
        n = (level + 8) // 8
        pad = 8 * n - level - 1
        if pad == 0 or not cnt:
            return b + b'\0'
        o = 6 + n * (1 + ch.draw(cnt)) - 1
        x = bytearray(b)
        x[o] ^= 1 << ch.draw(pad)
        return bytes(x)
    if how == 4 and kind == 'pub' and cfg.poplar:
        log.fault('padding')
        nb = (2 * cfg.bits + 7) // 8
        pad = 8 * nb - 2 * cfg.bits
        x = bytearray(b)
        if pad:
            x[nb - 1] ^= 1 << (7 - ch.draw(pad))
        else:
            x = x + b'\0'
        return bytes(x)
    log.fault('rot')
    if not b:
        return ch.pick([b'\0', b'\1', bytes(32), b'\xff'])
    x = bytearray(b)
    k = ch.draw(8 * len(x))
    x[k // 8] ^= 1 << (k % 8)
    return bytes(x)


# ------------------------------------------------ workload

def run(ch, log):
    cfg = gen(ch)
    ctx = C.gen_ctx(ch)
    describe(log, cfg, ctx)
    n = ch.between(1, 3)
    ref = cfg.ref()
    meas = [cfg.gen_meas(ch) for _ in range(n)]
    ap = b''
    if cfg.poplar:
        level = cfg.gen_level(ch)
        ap = cfg.param(level, cfg.gen_prefixes(ch, level, meas))
    key = ch.blob(32, 'key')
    tasks = Tasks(ch, log)
    for i, nonce in enumerate(fresh_nonces(ch, n)):
        tasks.add(f'r{i}', one(ch, log, cfg, ref, ctx, key, nonce, meas[i],
                               ch.blob(ref.rand_size, f'rand{i}'), ap))
    tasks.run()


def one(ch, log, cfg, ref, ctx, key, nonce, m, rand, ap):
    impl = cfg.sut()
    v = impl.v
    pub, inputs = impl.shard(ctx, m, nonce, rand)
    seen = {}

    def record(kind, r, j, b):
        seen[kind, r, j] = b
        return b
    states = {}

    class Watch:
        """Keeps the states, needed to decode later messages."""

        def __init__(self):
            self.k = {}

        def __call__(self, im, st):
            states.setdefault(len(states), st)
            return st
    outs = flow.verify(impl, cfg.shares, key, ctx, ap, nonce, pub, inputs,
                       cfg.rounds, tamper=record, store=Watch())
    yield 'honest'
    nat = v.decode_agg_param(ap)
    agg = impl.agg_update(ap, impl.agg_init(ap), outs[0])
    for t in range(ch.between(2, 7)):
        kind = ch.pick(['param', 'input', 'pub', 'vshare', 'msg', 'out',
                        'agg', 'pingpong'])
        if kind == 'pingpong':
            if cfg.shares == 2:
                framing(ch, log, cfg, ctx, key, nonce, ap, pub, inputs)
                yield 'framing'
            continue
        j = ch.draw(cfg.shares)
        r = ch.draw(cfg.rounds) if kind in ('vshare', 'msg') else 0
        # state held by aggregator j when a message of round r arrives
        st = states[r * cfg.shares + j]
        src = {'param': ap, 'out': outs[j], 'agg': agg}.get(kind)
        if src is None:
            src = seen[kind, r, j]
        bad = damage(ch, log, cfg, ref, kind, ap, src)
        if bad == src:
            continue
        log.probe('k:' + kind)
        ok = canonical(cfg, ref, kind, r, j, ap, bad)
        dec, enc = {
            'param': (v.decode_agg_param, v.encode_agg_param),
            'input': (lambda b: v.decode_input_share(j, b),
                      v.encode_input_share),
            'pub': (v.decode_public_share, v.encode_public_share),
            'vshare': (lambda b: v.decode_verifier_share(st, b),
                       v.encode_verifier_share),
            'msg': (lambda b: v.decode_verifier_message(st, b),
                    v.encode_verifier_message),
            'out': (lambda b: v.decode_out_share(nat, b),
                    v.encode_out_share),
            'agg': (lambda b: v.decode_agg_share(nat, b),
                    v.encode_agg_share),
        }[kind]
        what = f'{cfg.desc()} {kind} round {r} aggregator {j}, ' \
               f'{len(src)} bytes, damaged to {len(bad)}'
        log.ok()
        try:
            val = dec(bad)
        except Exception:
            log.probe('refused-decoding')
            yield 'refused'
            continue
        try:
            back = enc(val)
        except Exception:
            back = None
        check(back is None or back == bad, 'two-encodings-of-one-value', what)
        if ok:
            yield 'other-value'
            continue
        check(later(cfg, impl, v, ctx, key, nonce, pub, inputs, ap, nat, kind,
                    r, j, bad, agg, outs), 'malformed-encoding-accepted',
              what)
        log.probe('refused-later')
        yield 'refused-later'


def framing(ch, log, cfg, ctx, key, nonce, ap, pub, inputs):
    """One ping-pong message arrives with a damaged frame."""
    pp = [cfg.make_pp(), cfg.make_pp()]
    at = ch.draw(cfg.rounds + 1)
    bad = []

    def hook(k, b):
        if k != at:
            return b
        x = frame_damage(ch, log, b)
        try:
            R.pp_decode(x)
            return b                # still a frame
        except R.Reject:
            bad.append(k)
            return x
    ls, hs, _ = flow.pingpong(pp, key, ctx, ap, nonce, pub, inputs,
                              cfg.rounds, hook=hook)
    if not bad:
        return
    log.probe('k:pingpong')
    # the leader sends the even messages
    got = flow.name(ls if at % 2 else hs)
    check(got == 'Rejected', 'malformed-frame-accepted',
          f'{cfg.desc()} message {at}: receiver {got}')
    log.ok()


def frame_damage(ch, log, b):
    how = ch.draw(4)
    if how == 0:
        log.fault('torn')
        return b[:len(b) - min(len(b), ch.pick([1, 4, 5, 32, len(b) - 1]))]
    if how == 1:
        log.fault('overrun')
        return b + ch.pick([b'\0', bytes(4), b'\1', bytes(5), b, bytes(32)])
    if how == 2:
        log.fault('rot')
        return bytes([ch.pick([3, 4, 128, 255, b[0] | 128, b[0] | 4])]) + b[1:]
    log.fault('count')
    o = 1
    if ch.draw(2) and b[0] == 1:
        o = 5 + int.from_bytes(b[1:5], 'big')
    v = int.from_bytes(b[o:o + 4], 'big')
    v = ch.pick([v + 1, max(v - 1, 0), 0, 2**32 - 1, 2**31 + v, v + 4,
                 v + (1 << 16), v + (1 << 24)]) % 2**32
    return b[:o] + v.to_bytes(4, 'big') + b[o + 4:]


def later(cfg, impl, v, ctx, key, nonce, pub, inputs, ap, nat, kind, r, j,
          bad, agg, outs):
    """Is the malformed value refused before it has any effect?"""
    if kind in ('out', 'agg'):
        fns = [lambda: impl.agg_update(ap, agg, bad)] if kind == 'out' else [
            lambda: impl.merge(ap, [agg, bad]),
            lambda: impl.merge(ap, [bad, agg]),
            lambda: impl.agg_update(ap, bad, outs[0]),
            lambda: impl.unshard(ap, [bad] + [agg] * (cfg.shares - 1), 1)]
        for fn in fns:
            try:
                fn()
            except Exception:
                continue
            return False
        return True
    use = bad if kind == 'param' else ap

    def tamper(k, rr, jj, b):
        return bad if (k, rr, jj) == (kind, r, j) else b
    try:
        flow.verify(impl, cfg.shares, key, ctx, use, nonce, pub, inputs,
                    cfg.rounds, tamper=tamper)
    except flow.Refused:
        return True
    return False
