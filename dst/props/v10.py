"""Aggregation does not depend on order, batching or merging."""
from .. import flow
from .. import ref as R
from ..kernel import Tasks
from .common import C, REAL, STUB, check, describe, fresh_nonces

RUNS = {'quick': 27000, 'thorough': 216000}
RULE = ('One decision per final aggregate share, per collected result and per '
        'refused share of the wrong length.')
MUST_REACH = ['cfg:count', 'cfg:sum', 'cfg:sumvec', 'cfg:histogram',
              'cfg:multihot', 'cfg:multiproof', 'cfg:mixed', 'cfg:poplar1',
              'crash', 'conflict', 'compaction', 'empty-merge', 'reload',
              'wrong-length', 'nested-merge', 'synthetic', 'real-shares',
              'single-merge']


def prefix(i):
    return [i % 9]


def gen(ch):
    k = ch.draw(9)
    if k >= 7:
        return C.gen_poplar(ch)
    if ch.chance(15):
        return C.gen_long(ch)
    return C.gen_prio3(ch, kinds=(C.PRIO3[k],), cap=6000)


def run(ch, log):
    cfg = gen(ch)
    ctx = C.gen_ctx(ch)
    describe(log, cfg, ctx)
    impl, ref = cfg.sut(), cfg.ref()
    v = impl.v
    n = ch.between(1, 12)
    real = cfg.weight() * n < 3000 and n <= cfg.max_batch() and ch.draw(2)
    meas = [cfg.gen_meas(ch) for _ in range(n)] if real else []
    ap = b''
    if cfg.poplar:
        level = cfg.gen_level(ch)
        pre = cfg.gen_prefixes(ch, level, meas or [cfg.gen_meas(ch)],
                               empty=20)
        ap = cfg.param(level, pre)
    p = ref.field_for(ap)
    ln = ref.agg_len(ap)
    nat = v.decode_agg_param(ap)
    naggs = cfg.shares if real else ch.between(1, 2)
    outs = []       # per report, per aggregator: bytes
    if real:
        log.probe('real-shares')
        key = ch.blob(32, 'key')
        for i, nonce in enumerate(fresh_nonces(ch, n)):
            pub, inputs = ref.shard(ctx, meas[i], nonce,
                                    ch.blob(ref.rand_size, f'rand{i}'))
            outs.append(flow.verify(cfg.refimpl(), cfg.shares, key, ctx, ap,
                                    nonce, pub, inputs, cfg.rounds))
    else:
        log.probe('synthetic')
        for i in range(n):
            outs.append([R.enc_vec(p, [value(ch, p) for _ in range(ln)])
                         for _ in range(naggs)])
    finals = []
    tasks = Tasks(ch, log)
    stores = []
    for j in range(naggs):
        st = Store(ch, log, v, nat, ch.between(1, 4))
        stores.append(st)
        order = ch.shuffle(range(n))
        for w in range(st.nb):
            mine = [i for k, i in enumerate(order) if k % st.nb == w]
            tasks.add(f'a{j}w{w}', worker(ch, log, st, w,
                                          [(i, outs[i][j]) for i in mine],
                                          ln, p, cfg))
        if ch.chance(500):
            tasks.add(f'a{j}compact', compactor(ch, log, st))
    tasks.run()
    for j in range(naggs):
        got = v.encode_agg_share(stores[j].collect())
        want = R.ref_agg(ref, ap, [o[j] for o in outs])
        check(got == want, 'aggregate-share-differs',
              lambda: f'{cfg.desc()} aggregator {j} of {n} shares')
        log.ok()
        finals.append(got)
    if real:
        order = ch.shuffle(range(naggs)) if naggs <= 16 else range(naggs)
        res = v.unshard(nat, [v.decode_agg_share(nat, finals[j])
                              for j in order], n)
        if cfg.poplar:
            want = [sum(int(tuple(m[:level + 1]) == q) for m in meas)
                    for q in pre]
            res = list(res)
        else:
            want = cfg.plain(meas)
        check(res == want, 'wrong-result',
              lambda: f'{cfg.desc()} got {res!r:.100} want {want!r:.100}')
        log.ok()


def value(ch, p):
    return ch.pick([0, 1, p - 1, p - 2, p // 2, (p + 1) // 2,
                    ch.draw(1 << 32), ch.draw(1 << 32) ** 8 % p])


class Store:
    """Durable buckets with versions; writes are atomic compare-and-swap."""

    def __init__(self, ch, log, v, nat, nb):
        self.ch, self.log, self.v, self.nat, self.nb = ch, log, v, nat, nb
        self.data = [(0, None)] * nb
        self.mem = {}
        self.done = set()

    def read(self, b):
        ver, raw = self.data[b]
        if raw is None:
            return ver, self.v.agg_init(self.nat)
        if ver in self.mem.get(b, {}) and self.ch.chance(500):
            return ver, self.mem[b][ver]        # still in memory
        self.log.probe('reload')
        return ver, self.v.decode_agg_share(self.nat, raw)

    def cas(self, writes, mark=()):
        """writes: [(bucket, version read, new aggregate or None)]"""
        if any(self.data[b][0] != ver for b, ver, _ in writes):
            self.log.fault('conflict')
            return False
        for b, ver, new in writes:
            raw = None if new is None else self.v.encode_agg_share(new)
            self.data[b] = (ver + 1, raw)
            self.mem.setdefault(b, {})[ver + 1] = new
        self.done.update(mark)
        return True

    def collect(self):
        ch, v = self.ch, self.v
        parts = [self.read(b)[1] for b in range(self.nb)
                 if self.data[b][1] is not None or ch.chance(500)]
        for _ in range(ch.draw(3)):
            parts.append(v.agg_init(self.nat))
        parts = ch.shuffle(parts)
        while len(parts) > 1 and ch.chance(500):
            k = ch.between(1, len(parts))
            self.log.probe('nested-merge')
            if k == 1:
                self.log.probe('single-merge')
            head = v.merge(self.nat, parts[:k])
            parts = ch.shuffle(parts[k:] + [head])
        return v.merge(self.nat, parts)


def worker(ch, log, st, w, todo, ln, p, cfg):
    v = st.v
    for i, raw in todo:
        b = w if ch.draw(3) else ch.draw(st.nb)
        while i not in st.done:
            ver, agg = st.read(b)
            yield f'read{i}'
            if ch.chance(120):
                wrong_length(ch, log, st, agg, ln, p, cfg)
            if ch.chance(150):
                log.fault('crash')
                yield 'restart'
                continue
            out = v.decode_out_share(st.nat, raw)
            if ch.chance(250):
                # accumulate into a fresh share first, then merge
                part = v.agg_update(st.nat, v.agg_init(st.nat), out)
                yield f'part{i}'
                new = v.merge(st.nat, [agg, part] if ch.draw(2)
                              else [part, agg])
            else:
                new = v.agg_update(st.nat, agg, out)
            yield f'computed{i}'
            if ch.chance(100):
                log.fault('crash')
                continue
            st.cas([(b, ver, new)], [i])


def wrong_length(ch, log, st, agg, ln, p, cfg):
    v = st.v
    log.fault('wrong-length')
    k = ch.pick([ln + 1, ln - 1, 0, 2 * ln, ln + 2])
    if k < 0 or k == ln:
        k = ln + 1
    raw = R.enc_vec(p, [1] * k)
    how = ch.draw(6)
    try:
        if how == 3:
            # alone
            v.merge(st.nat, [v.decode_agg_share(st.nat, raw)])
        elif how == 4:
            v.unshard(st.nat, ch.shuffle([v.decode_agg_share(st.nat, raw),
                                          agg]), 1)
        elif how == 5:
            # an aggregate share of the wrong length, several times over
            wrong = v.decode_agg_share(st.nat, raw)
            v.merge(st.nat, [wrong] * ch.between(2, 3))
        elif how == 0:
            v.agg_update(st.nat, agg, v.decode_out_share(st.nat, raw))
        elif how == 1:
            v.merge(st.nat, [agg, v.decode_agg_share(st.nat, raw)])
        else:
            v.merge(st.nat, [v.decode_agg_share(st.nat, raw), agg])
    except Exception:
        log.ok()
        return
    check(False, 'wrong-length-accepted',
          f'{cfg.desc()} length {k} instead of {ln}')


def compactor(ch, log, st):
    v = st.v
    for _ in range(ch.between(1, 4)):
        a, b = ch.draw(st.nb), ch.draw(st.nb)
        if a == b:
            log.probe('empty-merge')
            z = v.merge(st.nat, [])
            check(v.encode_agg_share(z) ==
                  v.encode_agg_share(v.agg_init(st.nat)), 'empty-merge')
            yield 'empty'
            continue
        va, xa = st.read(a)
        vb, xb = st.read(b)
        yield 'compact-read'
        new = v.merge(st.nat, [xa, xb])
        yield 'compact-merged'
        if st.cas([(a, va, new), (b, vb, None)]):
            log.probe('compaction')
