"""A report verifies only in the setting it was made for."""
from .. import flow
from .. import sut as S
from ..kernel import Tasks
from .common import C, D, FaultPlan, REAL, STUB, Sim, check, describe, \
    fresh_nonces, near, near_same_size

RUNS = {'quick': 7000, 'thorough': 56000}
RULE = ('One decision per report processed in a setting that disagrees with '
        'the one it was made for, and one per collected result.')
ASSUMPTIONS = ['A nonce on which all aggregators agree but which is not the '
               'client\'s is not detectable in variants without joint '
               'randomness; the document does not promise it.']
MUST_REACH = ['cfg:count', 'cfg:sum', 'cfg:sumvec', 'cfg:histogram',
              'cfg:multihot', 'cfg:multiproof', 'cfg:mixed', 'cfg:poplar1',
              'w:ctx', 'w:nonce', 'w:key', 'w:role', 'w:shares', 'w:algorithm',
              'w:param', 'everyone', 'one', 'deployment', 'stepwise',
              'pingpong', 'crash', 'drop', 'undetectable-nonce', 'one-object',
              'verified-before', 'long-ctx', 'related-roles']


def prefix(i):
    return [i % 9]


def gen(ch):
    k = ch.draw(9)
    if k >= 7:
        return C.gen_poplar(ch, max_bits=64)
    if k < 2 and ch.chance(150):
        return C.P3('count', ch.pick([17, 33, 40, 65, 70, 129, 130, 140, 200,
                                      255]))
    return C.gen_prio3(ch, kinds=(C.PRIO3[k],), cap=2500, big=ch.chance(100))


_other = {}


class OtherAlgorithm:
    """The same code under another algorithm identifier, sizes unchanged."""

    def __init__(self, cfg, delta):
        self.cfg, self.delta = cfg, delta

    def cls(self):
        base = self.cfg.cls()
        k = (base, self.delta)
        if k not in _other:
            _other[k] = type(f'{base.__name__}Id{self.delta}', (base,),
                             {'ID': base.ID ^ self.delta})
        return _other[k]

    def make(self):
        return self.cls()(*self.cfg.ctor_args())

    def sut(self):
        return S.Sut(self.make())


def twin(ch, cfg):
    """Another algorithm whose reports have the same sizes."""
    if cfg.kind == 'sumvec' and ch.draw(2):
        return C.P3('multiproof', cfg.shares, p=cfg.modulus(), proofs=1,
                    length=cfg.length, mx=cfg.mx, chunk=cfg.chunk)
    return OtherAlgorithm(cfg, ch.pick([1, 2, 1 << 8, 1 << 31, 1 << 16]))


class View:
    """What each aggregator believes."""

    def __init__(self, cfg, key, ctx, ap, nonce, shared=None):
        n = cfg.shares
        self.impl = [shared or cfg.sut() for _ in range(n)]
        self.key, self.ctx = [key] * n, [ctx] * n
        self.ap, self.nonce = [ap] * n, [nonce] * n
        self.ids = list(range(n))
        self.perm = list(range(n))
        self.what = ''
        self.detectable = True


def disagree(ch, log, cfg, view, meas, level):
    n = cfg.shares
    kinds = ['ctx', 'nonce', 'key', 'role', 'algorithm', 'shares']
    if cfg.poplar:
        kinds += ['param', 'param']
    if n > 16:
        kinds += ['role'] * 4
    w = ch.pick(kinds)
    log.probe('w:' + w)
    log.fault('wrong-' + w)
    everyone = ch.chance(400) and w in ('ctx', 'nonce', 'algorithm')
    who = range(n) if everyone else sorted(
        set([ch.draw(n)] + ([ch.draw(n)] if n > 2 and ch.chance(300) else [])))
    if len(who) == n:
        everyone = True
    log.probe('everyone' if everyone else 'one')
    view.what = f'{w} at {"all" if everyone else list(who)[:3]}'
    if w == 'ctx':
        new = near(ch, view.ctx[0])
        if new == view.ctx[0]:
            new += b'x'
        for j in who:
            view.ctx[j] = new
    elif w == 'nonce':
        new = near_same_size(ch, view.nonce[0])
        for j in who:
            view.nonce[j] = new
        if everyone and not cfg.poplar and not cfg.circuit().jr_len:
            view.detectable = False
            log.probe('undetectable-nonce')
    elif w == 'key':
        if everyone:
            who = list(who)[:-1]
        new = near_same_size(ch, view.key[0])
        for j in who:
            view.key[j] = new
    elif w == 'role':
        j = who[0]
        if n > 16 and ch.chance(600):
            # indices that differ in one bit
            log.probe('related-roles')
            j = 1 + ch.draw(n - 1)
            near_by = [j ^ (1 << b) for b in range(8)
                       if 0 < j ^ (1 << b) < n] or [1]
            i = ch.pick(near_by + near_by[-1:] * 3)
            if ch.draw(2):
                view.ids[i] = j
        elif n > 2 and ch.chance(700):
            i = 1 + ch.draw(n - 1)
            j = 1 + ch.draw(n - 1)
        else:
            i = ch.draw(n)
        if i == j:
            i = (j + 1) % n
        view.ids[j] = i
        view.what = f'aggregator {j} acts as {i}'
    elif w == 'shares':
        i, j = ch.shuffle(range(n))[:2]
        view.perm[i], view.perm[j] = j, i
        view.what = f'shares of {i} and {j} exchanged'
        if ch.draw(2):
            # they also exchange roles, but not places: harmless unless the
            # order of verifier shares matters
            view.perm = list(range(n))
            view.perm[i] = j
            view.what = f'aggregator {i} uses the share of {j}'
    elif w == 'algorithm':
        t = twin(ch, cfg)
        for j in who:
            view.impl[j] = t.sut()
    else:
        j = who[0]
        pre = list(cfg.ref().decode_param(view.ap[0])[1])
        lv = level
        how = ch.draw(5)
        if how == 0 and len(pre) > 1:
            k = ch.draw(len(pre) - 1)
            pre[k], pre[k + 1] = pre[k + 1], pre[k]
        elif how == 1 and len(pre) > 1:
            pre = pre[:-1] if ch.draw(2) else pre[1:]
        elif how == 2 and cfg.bits > 1:
            lv = level - 1 if level else level + 1
            pre = sorted({tuple(q[:lv + 1]) if lv < level
                          else tuple(q) + (False,) for q in pre})
        elif how == 3 and 2**(level + 1) > len(pre):
            extra = [False] * (level + 1)
            for x in range(1 << min(level + 1, 8)):
                for b in range(min(level + 1, 8)):
                    extra[level - b] = bool((x >> b) & 1)
                if tuple(extra) not in pre:
                    break
            pre = pre + [tuple(extra)]
        else:
            k = ch.draw(len(pre))
            q = list(pre[k])
            q[ch.draw(len(q))] ^= True
            if tuple(q) in pre:
                pre.remove(tuple(q))
                if not pre:
                    pre = [tuple(q)]
            else:
                pre[k] = tuple(q)
        view.ap[j] = cfg.param(lv, tuple(pre))
        view.what = f'parameter level {lv} at {j}, {len(pre)} prefixes'
        if view.ap[j] == view.ap[1 - j]:
            view.ap[j] = cfg.param(level, (tuple(
                not x for x in pre[0]),) + tuple(pre[1:]))


def run(ch, log):
    cfg = gen(ch)
    ctx = C.gen_ctx(ch)
    if ch.chance(40):
        log.probe('long-ctx')
        ctx = ch.fresh(ch.pick([513, 1025, 2000, 4097, 9000, 20000, 40000,
                                65500]), 'long')
    describe(log, cfg, ctx)
    impl = cfg.sut()
    key = ch.blob(impl.key_size, 'key')
    n = ch.between(1, max(1, min(5, 4000 // cfg.weight())))
    nonces = fresh_nonces(ch, n)
    meas = [cfg.gen_meas(ch) for _ in range(n)]
    ap, level, p = b'', None, None
    if cfg.poplar:
        level = cfg.gen_level(ch)
        ap = cfg.param(level, cfg.gen_prefixes(ch, level, meas))
    p = cfg.ref().field_for(ap)
    reps = []
    for i in range(n):
        pub, inputs = impl.shard(ctx, meas[i], nonces[i],
                                 ch.fresh(impl.rand_size, f'rand{i}'))
        reps.append((pub, inputs))
    if ch.chance(250):
        deployment(ch, log, cfg, key, ctx, ap, nonces, meas, reps, level)
        return
    log.probe('stepwise')
    tasks = Tasks(ch, log)
    for i in range(n):
        shared = None
        if ch.chance(350):
            log.probe('one-object')
            shared = impl
        tasks.add(f'r{i}', one(ch, log, cfg, key, ctx, ap, p, nonces[i],
                               meas, i, *reps[i], level, shared))
    tasks.run()


def one(ch, log, cfg, key, ctx, ap, p, nonce, meas, i, pub, inputs, level,
        shared):
    view = View(cfg, key, ctx, ap, nonce, shared)
    disagree(ch, log, cfg, view, meas, level)
    yield 'start'
    if ch.chance(300):
        # the same objects have verified the report in its own setting
        log.fault('verified-before')
        own = shared or cfg.sut()
        try:
            flow.verify(own, cfg.shares, key, ctx, ap, nonce, pub, inputs,
                        cfg.rounds)
        except flow.Refused as e:
            check(False, 'honest-report-refused', f'{cfg.desc()}: {e}')
        if not shared:
            view.impl = [own if type(im.v) is type(own.v) else im
                         for im in view.impl]
        yield 'verified'
    try:
        outs = flow.verify(view.impl, cfg.shares, view.key, view.ctx, view.ap,
                           view.nonce, pub, [inputs[k] for k in view.perm],
                           cfg.rounds, agg_ids=view.ids)
    except flow.Refused:
        log.ok()
        return
    log.ok()
    check(not view.detectable, 'accepted-in-wrong-setting',
          f'{cfg.desc()} {view.what}')
    want = cfg.contribution(meas[i])
    check(flow.add_shares(p, outs) == [x % p for x in want],
          'garbled-output', f'{cfg.desc()} {view.what}')


def deployment(ch, log, cfg, key, ctx, ap, nonces, meas, reps, level):
    log.probe('deployment')
    view = View(cfg, key, ctx, ap, nonces[0])
    disagree(ch, log, cfg, view, meas, level)
    w = view.what
    reports = []
    for i, (pub, inputs) in enumerate(reps):
        reports.append(D.Report(nonces[i], pub,
                                [inputs[k] for k in view.perm], meas[i],
                                False))
    # A nonce disagreement concerns all reports: aggregators prepend a byte.
    task = D.Task(cfg, ctx, key)
    if cfg.shares == 2 and view.ids == [0, 1] and ch.draw(2):
        log.probe('pingpong')
        task.topology = 'pingpong'
        mixed = [S.pp_class(type(im.v)) for im in view.impl]
        made = [m(*cfg_args(cfg, im)) for m, im in zip(mixed, view.impl)]
        task.pp_for = lambda j: made[j]
    task.impl_for = lambda j: view.impl[j] if j != 'collector' else cfg.sut()
    task.ctx_for = lambda j: view.ctx[j]
    task.key_for = lambda j: view.key[j]
    task.ap_for = lambda j, a: view.ap[j]
    bad = [k for k in range(cfg.shares) if view.nonce[k] != nonces[0]]
    task.nonce_for = lambda j, nc: bytes([nc[0] ^ 1]) + nc[1:] \
        if j in bad else nc
    task.agg_id_for = lambda j: view.ids[j]
    sim = Sim(ch, log, FaultPlan(ch, force_none=ch.chance(200)))
    coll = D.run_deployment(sim, task, reports,
                            lambda k, res: ap if k == 0 else None)
    _, accepted, _, result = coll.results[0]
    log.ok(len(reports))
    if view.detectable:
        check(not accepted, 'accepted-in-wrong-setting',
              f'{cfg.desc()} {w}: {len(accepted)} of {len(reports)}')
    else:
        check(len(accepted) == len(reports) and
              result == cfg.plain(meas), 'garbled-output',
              f'{cfg.desc()} {w}')
        log.ok()


def cfg_args(cfg, im):
    """Constructor arguments for the class of `im`."""
    if cfg.kind == 'sumvec' and isinstance(
            im.v, S.vdaf_prio3.Prio3SumVecWithMultiproof):
        return C.P3('multiproof', cfg.shares, p=cfg.modulus(), proofs=1,
                    length=cfg.length, mx=cfg.mx,
                    chunk=cfg.chunk).ctor_args()
    return cfg.ctor_args()
