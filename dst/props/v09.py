"""Concurrent reports do not affect each other and inputs are never
modified."""
from .. import script as X
from .. import sut as S
from ..kernel import HarnessError, Tasks, Threads, Violation, expand
from . import v08
from .common import C, REAL, STUB, check

RUNS = {'quick': 2500, 'thorough': 20000}
RULE = ('One decision per step compared with the same report processed '
        'alone, and one per object checked for modification.')
MUST_REACH = ['cfg:count', 'cfg:sum', 'cfg:sumvec', 'cfg:histogram',
              'cfg:multihot', 'cfg:multiproof', 'cfg:mixed', 'cfg:poplar1',
              'shared-object', 'separate-objects', 'steps', 'threads',
              'preempt', 'failing-step', 'pingpong', 'repeated', 'relative',
              'busy']


def prefix(i):
    return [i % 9]


def gen(ch):
    k = ch.draw(9)
    if k >= 7:
        return C.gen_poplar(ch, max_bits=24)
    return C.gen_prio3(ch, kinds=(C.PRIO3[k],), cap=900, big=ch.chance(60))


def freeze(x):
    if isinstance(x, S.F.Field):
        return ('field', x.int())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [freeze(y) for y in x])
    if isinstance(x, (set, frozenset)):
        return ('set', sorted(map(repr, x)))
    if isinstance(x, dict):
        return ('dict', sorted((repr(k), freeze(v)) for k, v in x.items()))
    if isinstance(x, (bytes, bytearray)):
        return bytes(x)
    if hasattr(x, '__dict__') and not isinstance(x, type):
        return ('object', {k: freeze(v) for k, v in vars(x).items()
                           if not k.startswith('_')})
    return x


def unchanged(before, after):
    if isinstance(before, tuple) and before and before[0] == 'object':
        return isinstance(after, tuple) and after[0] == 'object' and all(
            k in after[1] and unchanged(v, after[1][k])
            for k, v in before[1].items())
    if isinstance(before, tuple) and before and \
            before[0] in ('list', 'tuple') and isinstance(after, tuple) and \
            after and after[0] == before[0]:
        return len(before[1]) == len(after[1]) and all(
            unchanged(a, b) for a, b in zip(before[1], after[1]))
    return before == after


class Keeper:
    """Every object handed out by or to the code, with its first content."""

    def __init__(self, log):
        self.log = log
        self.kept = []

    def keep(self, label, *objs):
        for o in objs:
            self.kept.append((label, o, freeze(o)))

    def call(self, label, fn, *args):
        before = [freeze(a) for a in args]
        try:
            out = fn(*args)
            ok = True
        except (Violation, HarnessError, MemoryError):
            raise
        except Exception:
            ok, out = False, None
        for k, (a, b) in enumerate(zip(args, before)):
            check(unchanged(b, freeze(a)), 'argument-modified',
                  f'{label} argument {k}')
        self.log.ok(len(args))
        if not ok:
            return X.FAIL
        self.keep(label, out, *args)
        return out

    def audit(self):
        for label, o, b in self.kept:
            check(unchanged(b, freeze(o)), 'object-modified',
                  f'something used or returned by {label}')
            self.log.ok()


def life(rep, vdaf, kp, aggs=None):
    """The life of a report on native objects; yields (label, bytes)."""
    cfg, v = rep.cfg, vdaf
    n, rounds = cfg.shares, cfg.rounds
    d = rep.damage
    ap = kp.call('decode_agg_param', v.decode_agg_param, rep.ap)

    def hit(kind, r, j, obj, enc, dec):
        """Objects pass through bytes only when damaged."""
        if d and d[:3] == (kind, r, j):
            try:
                return dec(X.flip(enc(obj), d[3]))
            except Exception:
                return X.FAIL
        return obj
    res = kp.call('shard', v.shard, rep.ctx, rep.meas, rep.nonce, rep.rand)
    if res == X.FAIL:
        yield 'shard', X.FAIL
        return
    pub, inputs = res
    yield 'shard', (v.encode_public_share(pub),
                    tuple(v.encode_input_share(s) for s in inputs))
    outs = [None] * n
    if rep.pingpong:
        epub = v.encode_public_share(pub)
        ein = [v.encode_input_share(s) for s in inputs]
        if d and d[0] == 'input':
            ein[d[2]] = X.flip(ein[d[2]], d[3])
        st = [None, None]
        st[0] = cur = kp.call('leader_init', v.ping_pong_leader_init, rep.key,
                              rep.ctx, rep.ap, rep.nonce, epub, ein[0])
        k = 0
        while True:
            nm = type(cur).__name__
            yield f'pp{k}', (nm, getattr(cur, 'outbound', None))
            if nm in ('Finished', 'FinishedWithOutbound'):
                outs[k % 2] = cur.out_share
            if nm in ('Finished', 'Rejected') or k > rounds + 2:
                break
            msg = cur.outbound
            if d and d[:2] == ('msg', k):
                msg = X.flip(msg, d[3])
            k += 1
            if k == 1:
                cur = kp.call('helper_init', v.ping_pong_helper_init, rep.key,
                              rep.ctx, rep.ap, rep.nonce, epub, ein[1], msg)
            else:
                fn = v.ping_pong_helper_continued if k % 2 else \
                    v.ping_pong_leader_continued
                cur = kp.call(f'continued{k}', fn, rep.ctx, rep.ap, st[k % 2],
                              msg)
            st[k % 2] = cur
        if any(o is None for o in outs):
            return
    else:
        st, vs = [None] * n, [None] * n
        for j in range(n):
            s = hit('input', 0, j, inputs[j], v.encode_input_share,
                    lambda b: v.decode_input_share(j, b))
            pb = hit('pub', 0, j, pub, v.encode_public_share,
                     v.decode_public_share)
            res = X.FAIL
            if s is not X.FAIL and pb is not X.FAIL:
                res = kp.call(f'init{j}', v.verify_init, rep.key, rep.ctx, j,
                              ap, rep.nonce, pb, s)
            if res is X.FAIL:
                yield f'init{j}', X.FAIL
                return
            st[j], vs[j] = res
            yield f'init{j}', v.encode_verifier_share(vs[j])
        for r in range(rounds):
            last = r + 1 == rounds
            got = [hit('vshare', r, j, s, v.encode_verifier_share,
                       lambda b: v.decode_verifier_share(st[j], b))
                   for j, s in enumerate(vs)]
            msg = X.FAIL
            if not any(g is X.FAIL for g in got):
                msg = kp.call(f'combine{r}', v.verifier_shares_to_message,
                              rep.ctx, ap, got)
            if msg is X.FAIL:
                yield f'combine{r}', X.FAIL
                return
            yield f'combine{r}', v.encode_verifier_message(msg)
            for j in range(n):
                m = hit('msg', r, j, msg, v.encode_verifier_message,
                        lambda b: v.decode_verifier_message(st[j], b))
                res = X.FAIL
                if m is not X.FAIL:
                    res = kp.call(f'next{r}.{j}', v.verify_next, rep.ctx,
                                  st[j], m)
                if res is X.FAIL:
                    yield f'next{r}.{j}', X.FAIL
                    return
                if last:
                    outs[j] = res
                    yield f'next{r}.{j}', v.encode_out_share(res)
                else:
                    st[j], vs[j] = res
                    yield f'next{r}.{j}', v.encode_verifier_share(vs[j])
    used = [ap]
    if cfg.poplar:
        used = [(lv, tuple(sorted({tuple(q[:lv + 1]) for q in ap[1]})))
                for lv in range(min(ap[0], 4))]
    yield 'is_valid', tuple(
        bool(kp.call('is_valid', v.is_valid, ap, h))
        for h in (list(used), used, used, used[:1], used + [ap]))
    parts = []
    for j in range(n):
        a = kp.call(f'agg_init{j}', v.agg_init, ap)
        b = kp.call(f'agg_update{j}', v.agg_update, ap, a, outs[j])
        c = kp.call(f'merge{j}', v.merge, ap, [a, b, b])
        parts.append(c)
        yield f'agg{j}', tuple(v.encode_agg_share(x) for x in (a, b, c))
    yield 'unshard', repr(kp.call('unshard', v.unshard, ap, parts, 2))


class Quiet:
    def ok(self, n=1):
        pass


def alone(rep):
    v = rep.cfg.make_pp() if rep.pingpong else rep.cfg.make()
    return list(life(rep, v, Keeper(Quiet())))


def run(ch, log):
    cfgs = v08.gen_cfgs(ch, gen)
    reps = v08.gen_reports(ch, log, cfgs, most=3)
    if ch.chance(300):
        # Two parties hold the very same report objects.
        reps.append(reps[ch.draw(len(reps))])
        log.probe('repeated')
    want = [X.isolated(alone, r) for r in reps]
    for w in want:
        if any(x[1] == X.FAIL for x in w):
            log.probe('failing-step')
    kp = Keeper(log)
    made = {}

    def vdaf_for(rep):
        k = (rep.cfg.key(), rep.pingpong)
        if ch.chance(300):
            log.probe('separate-objects')
            return rep.cfg.make_pp() if rep.pingpong else rep.cfg.make()
        if k in made:
            log.probe('shared-object')
        else:
            made[k] = rep.cfg.make_pp() if rep.pingpong else rep.cfg.make()
        return made[k]
    vd = [vdaf_for(r) for r in reps]
    if ch.chance(60):
        log.probe('busy')
        other = reps[0]
        most = min(ch.pick([20, 40, 70, 140]), 9000 // other.cfg.weight())
        salt = ch.draw(1 << 30)
        for k in range(most):
            for _ in life(X.Report(
                    other.cfg, other.ctx, other.key,
                    expand(f'busy/{salt}/{k}', 16), other.meas,
                    expand(f'rand/{salt}/{k}', len(other.rand)), other.ap,
                    None, other.pingpong), vd[0], Keeper(Quiet())):
                pass
    small = sum(r.cfg.weight() for r in reps) < 2500
    if small and ch.chance(450):
        log.probe('threads')
        fns = [lambda i=i: list(life(reps[i], vd[i], Keeper(Quiet())))
               for i in range(len(reps))]
        th = Threads(ch, log, S.POC)
        for i, (tag, res) in enumerate(th.run(fns)):
            if tag == 'exc':
                raise res
            match(log, reps[i], want[i], res)
    else:
        log.probe('steps')
        tasks = Tasks(ch, log)
        for i, rep in enumerate(reps):
            tasks.add(f'r{i}', stepwise(log, rep, vd[i], kp, want[i]))
        tasks.run()
    kp.audit()


def stepwise(log, rep, v, kp, want):
    got = []
    for x in life(rep, v, kp):
        got.append(x)
        yield x[0]
    match(log, rep, want, got)


def match(log, rep, want, got):
    for k in range(max(len(want), len(got))):
        a = want[k] if k < len(want) else None
        b = got[k] if k < len(got) else None
        check(a == b, 'outcome-differs',
              lambda: f'{rep.cfg.desc()} {(a or b)[0]}: alone {a!r:.60} '
                      f'concurrently {b!r:.60}')
        log.ok()
