"""Altered or mixed-up messages never lead to acceptance."""
from .. import flow
from .. import ref as R
from ..kernel import Tasks
from .common import C, REAL, STUB, check, describe, fresh_nonces

RUNS = {'quick': 4500, 'thorough': 36000}
RULE = 'One decision per altered report.'
ASSUMPTIONS = ['Clients draw good randomness.',
               'An alteration counts as provably ignored when the reference '
               'also accepts it and the reconstructed output is unchanged.',
               'Replacing every share by another report\'s makes it that '
               'report, where the nonce is not bound.']
MUST_REACH = ['cfg:count', 'cfg:sum', 'cfg:sumvec', 'cfg:histogram',
              'cfg:multihot', 'cfg:multiproof', 'cfg:mixed', 'cfg:poplar1',
              'on:input', 'on:pub', 'on:vshare', 'on:msg', 'on:vshares',
              'op:flip', 'op:truncate', 'op:extend', 'op:other', 'op:peer',
              'op:element', 'op:addmod', 'op:zero', 'rejected', 'ignored']
OPS = ('flip', 'element', 'truncate', 'extend', 'zero', 'addmod', 'other',
       'peer', 'bytes')


def prefix(i):
    return [i % 9]


def gen(ch):
    k = ch.draw(9)
    if k >= 7:
        return C.gen_poplar(ch, max_bits=300 if ch.chance(200) else 64)
    return C.gen_prio3(ch, kinds=(C.PRIO3[k],), cap=3000, big=ch.chance(100))


def alter(ch, op, data, other, peer, p):
    n = len(data)
    size = R.ENC[p]
    if op == 'flip':
        if not n:
            return b'\0'
        k = ch.draw(8 * n)
        b = bytearray(data)
        b[k // 8] ^= 1 << (k % 8)
        return bytes(b)
    if op == 'bytes':
        if not n:
            return b'\1'
        b = bytearray(data)
        for _ in range(ch.between(1, 4)):
            b[ch.draw(n)] = ch.draw(256)
        return bytes(b)
    if op in ('element', 'addmod'):
        if n < size:
            return data + b'\1'
        # field elements sit at the end or at the start of every message
        m = n // size
        i = ch.draw(m)
        o = n - size * (m - i) if ch.draw(2) else size * i
        v = int.from_bytes(data[o:o + size], 'little')
        if op == 'element':
            v = (v + ch.pick([1, p - 1, 2, (p + 1) // 2])) % p
        else:
            v = (v + p) % (1 << 8 * size)
        return data[:o] + v.to_bytes(size, 'little') + data[o + size:]
    if op == 'truncate':
        cut = ch.pick([1, size, 16, 32, n])
        return data[:max(0, n - cut)] if ch.draw(2) == 0 else data[cut:]
    if op == 'extend':
        ext = ch.pick([bytes(1), bytes(size), b'\1', bytes(32), data,
                       b'\xff' * size])
        return data + ext if ch.draw(3) else ext + data
    if op == 'zero':
        return bytes(n) if ch.draw(2) == 0 else b''
    if op == 'other':
        return other
    return peer


class Plan:
    """What is altered, decided before the run so that it can be applied to
    the code and to the reference alike."""

    def __init__(self, ch, log, cfg):
        self.items = {}
        self.fixed = {}
        self.ch, self.log = ch, log
        for _ in range(ch.weighted([(1, 5), (2, 1)])):
            kind = ch.pick(['input', 'vshare', 'msg', 'pub', 'vshares'])
            r = ch.draw(cfg.rounds) if kind in ('vshare', 'msg', 'vshares') \
                else 0
            j = ch.draw(cfg.shares)
            if kind in ('pub', 'msg') and ch.chance(300):
                j = 'all'
            op = ch.pick(OPS) if kind != 'vshares' else \
                ch.pick(['reorder', 'drop', 'double', 'append', 'lose',
                         'append-zero', 'insert-other'])
            self.items[kind, r, j] = op
            log.probe('on:' + kind)
            if op in OPS:
                log.probe('op:' + op)
            log.fault('alter-' + kind, '', f'{r} {j} {op}')


def run(ch, log):
    cfg = gen(ch)
    ctx = C.gen_ctx(ch)
    describe(log, cfg, ctx)
    impl = cfg.sut()
    key = ch.blob(impl.key_size, 'key')
    n = ch.between(1, max(1, min(5, 4000 // cfg.weight())))
    nonces = fresh_nonces(ch, n + 1)
    ap = b''
    meas = [cfg.gen_meas(ch) for _ in range(n + 1)]
    if cfg.poplar:
        level = cfg.gen_level(ch)
        ap = cfg.param(level, cfg.gen_prefixes(ch, level, meas[:3]))
        p = cfg.ref().field(level)
    else:
        p = cfg.modulus()
    tasks = Tasks(ch, log)
    reps = []
    for i in range(n + 1):
        rand = ch.fresh(impl.rand_size, f'rand{i}')
        pub, inputs = impl.shard(ctx, meas[i], nonces[i], rand)
        reps.append((pub, inputs, nonces[i]))
    for i in range(n):
        tasks.add(f'r{i}', one(ch, log, cfg, key, ctx, ap, p, reps[i],
                               reps[i + 1]))
    tasks.run()


def one(ch, log, cfg, key, ctx, ap, p, rep, other):
    impl, ref = cfg.sut(), cfg.refimpl()
    pub, inputs, nonce = rep
    opub, oinputs, ononce = other
    # What travels in the unaltered runs of this report and of another one.
    seen = {}

    def record(store):
        def t(kind, r, j, b):
            store[kind, r, j] = b
            return b
        return t
    oseen = {}
    clean = flow.verify(ref, cfg.shares, key, ctx, ap, nonce, pub, inputs,
                        cfg.rounds, tamper=record(seen))
    oclean = flow.verify(ref, cfg.shares, key, ctx, ap, ononce, opub, oinputs,
                         cfg.rounds, tamper=record(oseen))
    yield 'clean'
    plan = Plan(ch, log, cfg)
    cache = {}
    changed = []

    def tamper(kind, r, j, b):
        op = plan.items.get((kind, r, j))
        who = j
        if op is None and kind in ('pub', 'msg'):
            op = plan.items.get((kind, r, 'all'))
            who = 'all'
        if op is None:
            return b
        k = (kind, r, who)
        if kind == 'vshares':
            if k not in cache:
                cache[k] = ch.draw(cfg.shares)
            i = cache[k]
            b = list(b)
            if op == 'reorder':
                b = b[1:] + b[:1]
            elif op == 'drop':
                del b[i]
            elif op == 'lose':
                b = []
            elif op == 'double':
                b[i] = b[i - 1]
            elif op == 'append-zero':
                b = b + [bytes(len(b[i]))]
            elif op == 'insert-other':
                b.insert(i, oseen['vshare', r, i])
            else:
                b = b + [b[i]]
            changed.append(k)
            return b
        if k not in cache:
            pj = (j + 1) % cfg.shares
            cache[k] = alter(ch, op, b, oseen[kind, r, j],
                             seen[kind, r, pj], p)
        if cache[k] != b:
            changed.append(k)
        return cache[k]

    def tamper_list(kind, r, j, b):
        # the whole list of verifier shares is one unit per round
        if kind == 'vshares':
            op = [k for k in plan.items if k[0] == 'vshares' and k[1] == r]
            if not op:
                return b
            return tamper('vshares', r, op[0][2], b)
        return tamper(kind, r, j, b)

    order = ch.shuffle(range(cfg.shares)) if cfg.shares <= 16 \
        else list(range(cfg.shares))
    stored = ch.draw(2)
    res = []
    for im in (impl, ref):
        yield 'run'
        try:
            res.append(flow.verify(
                im, cfg.shares, key, ctx, ap, nonce, pub, inputs, cfg.rounds,
                tamper=tamper_list, order=lambda r, n: order,
                store=lambda i, s: i.load(i.save(s)) if stored else s))
        except flow.Refused as e:
            res.append(e)
    got, spec = res
    if not changed:
        log.probe('no-change')
        return
    log.ok()
    if isinstance(got, flow.Refused):
        log.probe('rejected')
        return
    what = f'{cfg.desc()} {plan.items}'
    check(not isinstance(spec, flow.Refused), 'altered-report-accepted',
          lambda: f'{what}: the specification refuses: {spec}')
    log.probe('ignored')
    if all(cache.get(('input', 0, j)) == oinputs[j]
           for j in range(cfg.shares)):
        # every share is the other report's: this is that report
        clean = oclean
    want = flow.add_shares(p, clean)
    check(len(got) == cfg.shares and flow.add_shares(p, got) == want,
          'altered-output', what)
