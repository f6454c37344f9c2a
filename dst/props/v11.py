"""Every honest message survives being encoded, stored and decoded."""
from .. import script as X
from ..kernel import Tasks
from . import v08, v09
from .common import C, REAL, STUB, check, describe, fresh_nonces

RUNS = {'quick': 3500, 'thorough': 28000}
RULE = ('One decision per message: same behaviour after decoding, same bytes '
        'after re-encoding, same length as in every other report.')
MUST_REACH = ['cfg:count', 'cfg:sum', 'cfg:sumvec', 'cfg:histogram',
              'cfg:multihot', 'cfg:multiproof', 'cfg:mixed', 'cfg:poplar1',
              'handover', 'param', 'deep-param', 'wide-param', 'many-params',
              'near-param', 'huge-param']


def prefix(i):
    return [i % 9]


def gen(ch):
    k = ch.draw(9)
    if k >= 7:
        return C.gen_poplar(ch)
    if ch.chance(15):
        return C.gen_long(ch)
    return C.gen_prio3(ch, kinds=(C.PRIO3[k],), cap=4000)


class Wandering(X.Machine):
    """Every step may be executed by a process that has only the bytes."""

    def __init__(self, cfg, ch, log):
        super().__init__(cfg)
        self.ch, self.log = ch, log

    def execute(self, op, args):
        if self.cfg.shares <= 8 and self.ch.chance(150):
            self.log.fault('handover')
            return X.isolated(X.Machine(self.cfg).execute, op, args)
        return super().execute(op, args)


def reencode(v, op, args, res, where):
    """Decode and re-encode everything that appears in a step."""
    def same(what, b, b2):
        check(b == b2, 'encoding-not-stable', f'{where} {what}')
    if op == 'shard':
        pub, shares = res
        same('public share', pub,
             v.encode_public_share(v.decode_public_share(pub)))
        for j, s in enumerate(shares):
            same(f'input share {j}', s,
                 v.encode_input_share(v.decode_input_share(j, s)))
    elif op == 'init':
        ap = args[3]
        same('aggregation parameter', ap,
             v.encode_agg_param(v.decode_agg_param(ap)))
        st = X.S.load(res[1])
        same('verifier share', res[0], v.encode_verifier_share(
            v.decode_verifier_share(st, res[0])))
    elif op == 'combine':
        st = X.S.load(args[2])
        same('verifier message', res, v.encode_verifier_message(
            v.decode_verifier_message(st, res)))
    elif op == 'next':
        if isinstance(res, tuple):
            st = X.S.load(res[1])
            same('verifier share', res[0], v.encode_verifier_share(
                v.decode_verifier_share(st, res[0])))
    elif op == 'agg_update':
        nat = v.decode_agg_param(args[0])
        for what, b in (('aggregate share', args[1]),
                        ('aggregate share', res)):
            same(what, b, v.encode_agg_share(v.decode_agg_share(nat, b)))
        same('output share', args[2], v.encode_out_share(
            v.decode_out_share(nat, args[2])))


def sizes(op, args, res):
    if op == 'shard':
        return (len(res[0]), tuple(map(len, res[1])))
    if op == 'init':
        return len(res[0])
    if op == 'combine':
        return len(res)
    if op == 'next':
        return len(res[0]) if isinstance(res, tuple) else len(res)
    if op in ('agg_init', 'agg_update', 'merge'):
        return len(res)
    return None


def run(ch, log):
    cfg = gen(ch)
    ctxs = [C.gen_ctx(ch) for _ in range(2)]
    describe(log, cfg, ctxs[0])
    n = ch.between(1, max(1, min(3, 4000 // cfg.weight())))
    ap = b''
    meas = [cfg.gen_meas(ch) for _ in range(n)]
    if cfg.poplar:
        level = cfg.gen_level(ch)
        ap = cfg.param(level, cfg.gen_prefixes(ch, level, meas,
                                              empty=20))
    rs = cfg.ref().rand_size
    tasks = Tasks(ch, log)
    lens = {}
    for i, nonce in enumerate(fresh_nonces(ch, n)):
        rep = X.Report(cfg, ch.pick(ctxs), ch.blob(32, 'key'), nonce, meas[i],
                       ch.blob(rs, f'rand{i}'), ap)
        tasks.add(f'r{i}', one(ch, log, rep, lens))
    if cfg.poplar:
        tasks.add('params', params(ch, log, cfg))
    tasks.run()


def one(ch, log, rep, lens):
    cfg = rep.cfg
    # Native objects, nothing is ever encoded on the way.
    native = dict(X.isolated(v09.alone, rep))
    m = Wandering(cfg, ch, log)
    v = cfg.make()
    for label, op, args, res in X.play(rep, m):
        what = f'{cfg.desc()} {label}'
        check(res != X.FAIL, 'honest-message-refused', what)
        vis = X.visible(op, res)
        if op == 'shard':
            vis = (vis[0], tuple(vis[1]))
        if op == 'unshard':
            vis = None
        if label in native and vis is not None:
            check(native[label] == vis, 'decoded-value-behaves-differently',
                  what)
            log.ok()
        reencode(v, op, args, res, what)
        s = sizes(op, args, res)
        if s is not None:
            # every aggregate share has the same length, empty ones too
            kind = 'aggregate share' \
                if op in ('agg_init', 'agg_update', 'merge') else label
            check(lens.setdefault(kind, s) == s, 'length-varies',
                  lambda: f'{what} {s} and {lens[kind]}')
        log.ok()
        if cfg.shares <= 8:
            yield label


def huge(ch, log):
    """A parameter with more prefixes than fit in two bytes."""
    log.probe('huge-param')
    level = ch.between(16, 18)
    n = ch.pick([65535, 65536, 65537, 66000])
    v = C.Pop(level + 1).make()
    pres = tuple(tuple(bool((k >> (level - i)) & 1)
                       for i in range(level + 1)) for k in range(n))
    enc = v.encode_agg_param((level, pres))
    lv2, pres2 = v.decode_agg_param(enc)
    check((lv2, tuple(pres2)) == (level, pres), 'parameter-changed',
          f'level {level}, {n} prefixes')
    check(v.encode_agg_param((lv2, pres2)) == enc, 'encoding-not-stable',
          f'parameter with {n} prefixes')
    log.ok()


def params(ch, log, cfg):
    """Aggregation parameters of any depth and width."""
    log.probe('param')
    if ch.chance(12):
        huge(ch, log)
    bits = ch.pick([cfg.bits, 64, 257, 1000, 4096, 65535, 65536])
    v = C.Pop(bits).make()
    last = None
    for _ in range(ch.between(1, 10)):
        if last is not None and last[1] and ch.chance(600):
            # much like the previous one
            log.probe('near-param')
            level, pres = last[0], set(last[1])
            old = ch.pick(last[1])
            new = list(old)
            i, k = ch.draw(level + 1), ch.draw(level + 1)
            new[i], new[k] = new[k], new[i]
            if ch.chance(200):
                new[i] ^= True
            pres.discard(old)
            pres.add(tuple(new))
        else:
            level = ch.pick([bits - 1, ch.draw(bits), 7 % bits, 8 % bits,
                             15 % bits, 0, 2 % bits])
            pres = fresh_prefixes(ch, level)
        if level > 500:
            log.probe('deep-param')
        if len(pres) > 100:
            log.probe('wide-param')
        pres = tuple(sorted(pres))
        last = level, pres
        if len(pres) > 1:
            log.probe('many-params')
        enc = v.encode_agg_param((level, pres))
        lv2, pres2 = v.decode_agg_param(enc)
        back = (lv2, tuple(tuple(map(bool, q)) for q in pres2))
        check(back == (level, pres), 'parameter-changed',
              f'level {level}, {len(pres)} prefixes')
        check(v.encode_agg_param((lv2, pres2)) == enc, 'encoding-not-stable',
              f'parameter at level {level}')
        check(bool(v.is_valid((lv2, pres2), [])) ==
              bool(v.is_valid((level, pres), [])), 'parameter-changed')
        log.ok()
        yield f'param{level}'


def fresh_prefixes(ch, level):
    most = 1 << min(level + 1, 9)
    n = ch.pick([0, 1, 2, 3, most, min(most, 300)])
    n = min(n, most, 40000 // (level + 1) + 1)
    pres = set()
    start = ch.draw(1 << (level + 1)) if level < 9 else 0
    for k in range(n):
        how = ch.draw(3)
        x = ch.draw(1 << 32)
        if level < 9:
            pres.add(tuple(bool(((start + k) >> (level - i)) & 1)
                           for i in range(level + 1)))
        elif how == 0:
            pres.add(tuple(i == x % (level + 1) for i in range(level + 1)))
        else:
            pres.add(tuple(bool((x >> (i % 32)) & 1)
                           for i in range(level + 1)))
    return pres
