"""Unlucky or hostile expander output never leaks or corrupts a report."""
from .. import flow
from .. import ref as R
from .. import sut as S
from ..kernel import HarnessError, Skip, Violation
from .common import C, REAL, STUB, check, describe, fresh_nonces, h8

RUNS = {'quick': 6500, 'thorough': 52000}
RULE = ('One decision per verification step under a forced expander '
        '(compared with the reference under the same expander), one per '
        'report that had to be refused and one per aggregate.')
ASSUMPTIONS = ['A test point that was not forced does not hit an '
               'interpolation point by accident.']
STUB = ['expander output at chosen positions', 'client/aggregator/collector '
        'shells']
MUST_REACH = ['cfg:count', 'cfg:sum', 'cfg:sumvec', 'cfg:histogram',
              'cfg:multihot', 'cfg:multiproof', 'cfg:mixed', 'cfg:poplar1',
              'test-point', 'test-point-later-proof', 'test-point-gadget-2',
              'test-point-one', 'test-point-minus-one', 'test-point-padding',
              'near-point', 'point-zero', 'rejected-words', 'extreme-words',
              'many-rejected', 'rejected-at-end', 'all-zero', 'seed-words',
              'refused', 'other-report-unaffected', 'after-refusal']


# ------------------------------------------------- forced expander output

class Rule:
    """Bytes forced at stream positions of matching expansions."""

    def __init__(self, usage, tail, patch, fill=None):
        self.usage, self.tail, self.patch, self.fill = \
            usage, tail, patch, fill
        self.hits = 0

    def matches(self, dst, binder):
        return dst[1] == 0 and int.from_bytes(dst[6:8], 'big') == self.usage \
            and (self.tail is None or self.tail in binder)


class Forced:
    def __init__(self, rules, dst, binder):
        self.rules = [r for r in rules if r.matches(dst, binder)]
        self.pos = 0

    def apply(self, data):
        a, b = self.pos, self.pos + len(data)
        self.pos = b
        out = bytearray(data)
        for r in self.rules:
            if r.fill is not None:
                out = bytearray([r.fill]) * len(data)
                r.hits += 1
            for off, word in r.patch.items():
                lo, hi = max(a, off), min(b, off + len(word))
                if lo < hi:
                    out[lo - a:hi - a] = word[lo - off:hi - off]
                    r.hits += 1
        return bytes(out)


def sut_xof(rules):
    real = S.xof_mod.XofTurboShake128

    class ForcedXof(S.xof_mod.Xof):
        SEED_SIZE = real.SEED_SIZE
        test_vec_name = 'Forced'

        def __init__(self, seed, dst, binder):
            self.inner = real(seed, dst, binder)
            self.forced = Forced(rules, dst, binder)

        def next(self, length):
            return self.forced.apply(self.inner.next(length))
    return ForcedXof


def ref_stream(rules):
    real = R.Stream

    class ForcedStream(real):
        def __init__(self, seed, dst, binder):
            super().__init__(seed, dst, binder)
            self.forced = Forced(rules, dst, binder)

        def read(self, n):
            return self.forced.apply(super().read(n))
    return ForcedStream


# ------------------------------------------------- what is forced

def out_of_range(ch, p):
    """A word that must be skipped."""
    top = R.next_pow2(p)
    return ch.pick([p, p + 1, top - 1, top - 2,
                    p + ch.draw(min(2**31, top - p))])


def in_range(ch, p):
    return ch.pick([0, 1, p - 1, p - 2, 2, R.next_pow2(p) // 2,
                    p // 2, (p + 1) // 2, 2**32 - 1, 2**32, 2**63 % p])


def words(ch, log, p, n):
    """Overlay for the first words of a vector of n elements."""
    size, patch, k = R.ENC[p], {}, 0
    spots = sorted(set([ch.draw(n) for _ in range(ch.between(1, 4))] +
                       ([n - 1] if ch.chance(300) else [])))
    shift = 0
    for i in spots:
        if ch.chance(650):
            m = ch.weighted([(1, 6), (2, 3), (5, 1), (40, 1)])
            for _ in range(m):
                patch[(i + shift) * size] = \
                    out_of_range(ch, p).to_bytes(size, 'little')
                shift += 1
            log.probe('rejected-words')
            if m >= 40:
                log.probe('many-rejected')
            if i == n - 1:
                log.probe('rejected-at-end')
        if ch.chance(500):
            patch[(i + shift) * size] = in_range(ch, p).to_bytes(size,
                                                                 'little')
            log.probe('extreme-words')
    return patch


def prio3_rules(ch, log, cfg, ref, nonces):
    """Returns the rules and the indices of reports that must be refused."""
    flp, p, proofs = ref.flp, ref.p, ref.proofs
    size = R.ENC[p]
    rules, doomed = [], set()
    lens = {1: ref.c.meas_len, 2: flp.proof_len * proofs,
            3: ref.c.jr_len * proofs, 4: flp.prove_rand_len * proofs,
            5: flp.query_rand_len * proofs}
    used = set()
    # the test point of one gadget in one proof of one report
    if ch.chance(600):
        used.add(5)
        i = ch.draw(len(nonces))
        k = ch.pick([0, proofs - 1, ch.draw(proofs)])
        g = ch.draw(len(ref.c.gadgets))
        P, N = flp.P[g], flp.N[g]
        idx = k * flp.query_rand_len + g + \
            (ref.c.eval_len if ref.c.eval_len > 1 else 0)
        rs = R.roots(p, P)
        how = ch.draw(8)
        bad = True
        if how == 0:
            t = rs[ch.draw(P)]
        elif how == 1:
            t = 1
            log.probe('test-point-one')
        elif how == 2:
            t = p - 1
            log.probe('test-point-minus-one')
        elif how == 3:
            t = rs[P - 1]
        elif how == 4:
            c = ref.c.calls[g]
            t = rs[min(P - 1, ch.pick([c, c + 1, 1]))]
            if c + 1 < P and t == rs[c + 1]:
                log.probe('test-point-padding')
        elif how == 5:
            # a root of unity, but of a larger order
            M = ch.pick([2 * P, N if N > P else 2 * P, 4 * P])
            t = R.roots(p, M)[1 + 2 * ch.draw(M // 2)] \
                if M == 2 * P else R.roots(p, M)[1]
            bad = pow(t, P, p) == 1
            log.probe('near-point')
        elif how == 6:
            t, bad = 0, False
            log.probe('point-zero')
        else:
            t = ch.pick([2, p - 2, 3, p // 2])
            bad = pow(t, P, p) == 1
        if bad:
            doomed.add(i)
            log.fault('test-point', f'report {i} proof {k} gadget {g}')
            if k:
                log.probe('test-point-later-proof')
            if g:
                log.probe('test-point-gadget-2')
        pre = ch.weighted([(0, 5), (1, 1), (3, 1)])
        patch = {}
        for q in range(pre):
            patch[(idx + q) * size] = \
                out_of_range(ch, p).to_bytes(size, 'little')
        patch[(idx + pre) * size] = t.to_bytes(size, 'little')
        rules.append(Rule(5, nonces[i], patch))
    for _ in range(ch.draw(4)):
        u = ch.pick([1, 2, 3, 4, 5, 6, 7])
        if u in used or lens.get(u, 1) == 0:
            continue
        used.add(u)
        how = ch.draw(6)
        if u in (6, 7):
            if not ref.jr:
                continue
            rules.append(Rule(u, None, {}, fill=ch.pick([0, 255])))
            log.fault('seed-words', f'usage {u}')
        elif how == 0 and u != 5:
            rules.append(Rule(u, None, {}, fill=0))
            log.fault('all-zero', f'usage {u}')
        else:
            patch = words(ch, log, p, lens[u])
            rules.append(Rule(u, None, patch))
            log.fault('forced-words', f'usage {u} {len(patch)}')
            if u == 5:
                check_points(ref, rules[-1], doomed, nonces)
    return rules, doomed


def check_points(ref, rule, doomed, nonces):
    """Forced words may themselves be test points (1 and -1 are always
    interpolation points)."""
    flp, p, size = ref.flp, ref.p, R.ENC[ref.p]
    n = flp.query_rand_len * ref.proofs
    vals, k = [], 0
    while len(vals) < n:
        w = rule.patch.get(k * size)
        k += 1
        x = int.from_bytes(w, 'little') if w is not None else None
        if x is None or x < p:
            vals.append(x)
    skip = ref.c.eval_len if ref.c.eval_len > 1 else 0
    for q in range(ref.proofs):
        pts = vals[q * flp.query_rand_len:(q + 1) * flp.query_rand_len][skip:]
        for g, t in enumerate(pts):
            if t is not None and pow(t, flp.P[g], p) == 1:
                doomed.update(range(len(nonces)))


def poplar_rules(ch, log, cfg, nonces):
    rules = []
    n = cfg.bits - 1
    # the correlated randomness and authenticator streams mix two fields;
    # forced words stay inside the part of the inner levels
    for u, p, ln in ((1, R.P64, n), (2, R.P64, 3 * n), (3, R.P255, 3),
                     (4, None, 1)):
        if ln == 0 or not ch.chance(500):
            continue
        if p is None:
            p = R.P64 if ch.draw(2) else R.P255
        if ch.chance(150):
            rules.append(Rule(u, None, {}, fill=0))
            log.fault('all-zero', f'usage {u}')
        else:
            tail = nonces[ch.draw(len(nonces))] if ch.draw(2) else None
            rules.append(Rule(u, tail, words(ch, log, p, ln)))
            log.fault('forced-words', f'usage {u}')
    return rules


# ------------------------------------------------- the run

def run(ch, log):
    poplar = ch.chance(120)
    cfg = C.gen_poplar(ch, big=False) if poplar else \
        C.gen_prio3(ch, big=False, cap=1200)
    ctx = C.gen_ctx(ch)
    describe(log, cfg, ctx)
    n = ch.between(1, min(3, cfg.max_batch()))
    nonces = []
    while len(nonces) < n:
        b = ch.fresh(16, f'nonce{len(nonces)}')
        nonces.append(b)
    key = ch.blob(32, 'key')
    ref0 = cfg.ref()
    ms = [cfg.gen_meas(ch) for _ in range(n)]
    if poplar:
        rules, doomed = poplar_rules(ch, log, cfg, nonces), set()
        lv = cfg.gen_level(ch)
        prefixes = cfg.gen_prefixes(ch, lv, ms)
        ap = cfg.param(lv, prefixes)
    else:
        rules, doomed = prio3_rules(ch, log, cfg, ref0, nonces)
        ap = b''
    vdaf = cfg.make()
    mine = [Rule(r.usage, r.tail, r.patch, r.fill) for r in rules]
    vdaf.xof = sut_xof(mine)
    sut = S.Sut(vdaf)
    R.Stream = ref_stream(rules)
    ref = cfg.refimpl()
    p = ref.r.field_for(ap) if poplar else ref0.p

    order = ch.shuffle(range(n))
    kept = {j: [] for j in range(cfg.shares)}
    good = []
    what = cfg.desc()
    for step, i in enumerate(order):
        log.sim_us += 1000
        rand = ch.fresh(sut.rand_size, f'rand{i}')
        want = ref.shard(ctx, ms[i], nonces[i], rand)
        got = sut.shard(ctx, ms[i], nonces[i], rand)
        if any(r.hits for r in rules) and not any(r.hits for r in mine):
            raise Skip('the expander cannot be replaced')
        check(got == (want[0], list(want[1])), 'shard-differs',
              lambda: f'{what} report {i}')
        log.ok()
        pub, inputs = got
        if i in doomed:
            for j in ch.shuffle(range(cfg.shares)):
                try:
                    st, vs = sut.verify_init(key, ctx, j, ap, nonces[i], pub,
                                             inputs[j])
                except (Violation, HarnessError, MemoryError):
                    raise
                except Exception:
                    pass
                else:
                    check(False, 'verifier-share-at-encoding-point',
                          f'{what} aggregator {j} report {i}')
                log.ok()
            log.ev('report', i, 'refused')
            log.probe('refused')
            continue
        if doomed:
            log.probe('other-report-unaffected')
            if any(k in doomed for k in order[:step]):
                log.probe('after-refusal')
        impls = [ref if ch.chance(250) else sut for _ in range(cfg.shares)]
        try:
            outs = flow.verify(impls, cfg.shares, key, ctx, ap, nonces[i],
                               pub, inputs, cfg.rounds)
        except flow.Refused as e:
            raise Violation('honest-report-refused', f'{what} {e}')
        wants = flow.verify([ref] * cfg.shares, cfg.shares, key, ctx, ap,
                            nonces[i], pub, inputs, cfg.rounds)
        for j in range(cfg.shares):
            check(outs[j] == wants[j], 'output-share-differs',
                  lambda: f'{what} aggregator {j}')
            kept[j].append(outs[j])
            # the first message, byte for byte
            _, v1 = sut.verify_init(key, ctx, j, ap, nonces[i], pub,
                                    inputs[j])
            _, v2 = ref.verify_init(key, ctx, j, ap, nonces[i], pub,
                                    inputs[j])
            check(v1 == v2, 'verifier-share-differs',
                  lambda: f'{what} aggregator {j}')
            log.ok()
        good.append(i)
        log.ev('report', i, f'ok {h8(b"".join(outs))}')
    for r in rules:
        if r.hits:
            log.probe('rule-hit')
    if good:
        aggs = []
        for j in range(cfg.shares):
            a = sut.agg_init(ap)
            for o in kept[j]:
                a = sut.agg_update(ap, a, o)
            aggs.append(a)
        res = sut.unshard(ap, aggs, len(good))
        if poplar:
            plain = [sum(c) for c in zip(
                *[cfg.contribution_at(ms[i], prefixes) for i in good])]
        else:
            plain = cfg.plain([ms[i] for i in good])
        check(res == plain, 'wrong-aggregate', lambda: f'{what}: {res}')
        log.ok()
