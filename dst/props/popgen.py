"""Poplar1 workload pieces: parameter sequences and cheating clients."""
from .. import cfg as C
from .. import ref as R


def extend_prefix(ch, pre, level, alphas):
    """An extension of `pre` to `level`, biased to a string in the batch."""
    n = len(pre)
    fits = [a for a in alphas if tuple(a[:n]) == tuple(pre)]
    if fits and ch.chance(650):
        out = list(ch.pick(fits)[:level + 1])
        if ch.chance(300) and level >= n:
            out[n + ch.draw(level + 1 - n)] ^= True
        return tuple(out)
    v = ch.draw(2**32)
    return tuple(pre) + tuple(bool((v >> (i % 32)) & 1)
                              for i in range(level + 1 - n))


def param_sequence(ch, cfg, alphas, most=4, limit=8, wide=50):
    """Admissible (level, prefixes) pairs, levels strictly increasing."""
    n = ch.between(1, min(most, cfg.bits))
    pool = list(range(cfg.bits))
    levels = []
    first = []
    if cfg.bits > 3 and ch.chance(wide):
        lv = ch.weighted([(3, 3), (4, 4), (5, 4), (6, 1), (8, 1)])
        lv = min(lv, cfg.bits - 1)
        first = [(lv, C.wide_prefixes(ch, lv))]
        pool = pool[first[0][0] + 1:]
        n = min(n - 1, len(pool))
    for i in range(n):
        if i == 0 and ch.chance(500):
            levels.append(pool.pop())       # the leaves
        else:
            levels.append(pool.pop(ch.draw(len(pool))))
    levels.sort()
    out = first
    for lv in levels:
        if not out:
            pres = cfg.gen_prefixes(ch, lv, alphas, limit)
        else:
            got = set()
            for _ in range(ch.between(1, limit)):
                got.add(extend_prefix(ch, ch.pick(out[-1][1]), lv, alphas))
            pres = tuple(sorted(got))
        out.append((lv, pres))
    return out


class Cheat:
    """A report made by a cheating client, with what its tree really holds."""

    def __init__(self, cfg, ref, ctx, nonce, note):
        self.cfg, self.ref, self.ctx = cfg, ref, ctx
        self.nonce, self.note = nonce, note
        self.ks = None
        self.corr_bad = {}
        self.pub = self.shares = None

    def values(self, level, prefixes):
        cws = self.ref.idpf.decode_public(self.pub)
        p = self.ref.field(level)
        v = [self.ref.idpf.eval(j, cws, self.shares[j][:16], level, prefixes,
                                self.ctx, self.nonce) for j in (0, 1)]
        return [[(a + b) % p for a, b in zip(x, y)] for x, y in zip(*v)]

    def expect(self, level, prefixes):
        """(accepted?, counts) for an evaluation."""
        vals = self.values(level, prefixes)
        p = self.ref.field(level)
        k = self.ks[level]
        on = [d for d, _ in vals if d]
        ok = len(on) <= 1 and all(d == 1 for d in on) and \
            all(a == d * k % p for d, a in vals) and \
            level not in self.corr_bad
        return ok, [d for d, _ in vals]


def offset(ch, p, zero):
    """An error a careless comparison might not see."""
    how = ch.draw(5)
    if how == 0:
        return 0 if zero else 1
    if how == 1:
        return ch.pick([1, p - 1, 12345])
    if how == 2:
        return (1 << ch.draw(p.bit_length() - 1)) % p
    if how == 3:
        return R.P64 * (1 + ch.draw(3)) % p or 1
    return ((1 << 64) - (1 << ch.pick([0, 8, 32]))) * (
        1 << 8 * ch.draw(9)) % p or 1


def cheat(ch, log, cfg, ctx, nonce, params):
    """params: the collections the attacker expects."""
    ref = cfg.ref()
    rand = ch.fresh(ref.rand_size, 'evil')
    alpha = cfg.gen_meas(ch)
    lv = ch.pick([x for x, _ in params]) if ch.chance(850) \
        else ch.draw(cfg.bits)
    if ch.chance(600):
        # aim at something that will be asked for
        pres = [q for l, q in params if l == lv]
        if pres:
            a = ch.pick(pres[0])
            alpha = tuple(a) + tuple(alpha[len(a):])
    p = ref.field(lv)
    how = ch.draw(7)
    c = Cheat(cfg, ref, ctx, nonce, '')

    def keep(betas, ks):
        c.ks = list(ks)
        return betas

    if how <= 3:
        def hook(betas, ks):
            c.ks = list(ks)
            k = ks[lv]
            d = ch.pick([2, p - 1, 3, (p + 1) // 2, p - 2, 1 << 32,
                         R.P64 + 1, (1 << 64) + 1]) % p
            if d in (0, 1):
                d = 2
            if how == 0:
                a = k * d
                c.note = f'value {d}'
                log.probe('scaled')
            elif how == 1:
                d = 1
                a = ch.pick([k + 1, 0, k * 2, p - k, 1,
                             k + offset(ch, p, False)])
                c.note = 'wrong authenticator'
                log.probe('wrong-authenticator')
            elif how == 2:
                a = k * d + d * d - d
                c.note = f'value {d}, authenticator for constant weights'
                log.probe('constant-weights')
            else:
                # weights predicted under a key of the attacker's choice
                key = ch.pick([bytes(32), ch.fresh(32, 'guess')])
                r = 1
                pres = [q for l, q in params if l == lv]
                if pres:
                    rs = ref._stream(key, 4, ctx,
                                     nonce + lv.to_bytes(2, 'big')).vec(
                                         p, len(pres[0]))
                    mine = tuple(alpha[:lv + 1])
                    if mine in pres[0]:
                        r = rs[pres[0].index(mine)]
                a = k * d + (d * d - d) * r
                c.note = f'value {d}, weights guessed'
                log.probe('guessed-weights')
            betas = [list(b) for b in betas]
            betas[lv] = [d % p, a % p]
            return betas
        c.pub, c.shares = ref.shard(ctx, alpha, nonce, rand, betas_hook=hook)
    elif how == 4:
        dA, dB = offset(ch, p, True), offset(ch, p, True)
        if dA == 0 and dB == 0:
            dB = offset(ch, p, False)
        c.note = f'correlated randomness off by {dA},{dB} at {lv}'
        c.corr_bad[lv] = True
        log.probe('bad-correlation')

        def corr(l, A, B, q):
            return ((A + dA) % q, (B + dB) % q) if l == lv else (A, B)
        c.pub, c.shares = ref.shard(ctx, alpha, nonce, rand, betas_hook=keep,
                                    corr_hook=corr)
    elif how == 5:
        # the child off the path becomes active as well
        which = ch.draw(3)
        c.note = f'both children active at {lv}'
        log.probe('twisted')

        def twist(l, cw):
            if l != lv:
                return cw
            s, t, w = cw
            t = list(t)
            if which == 0:
                t[1 - int(alpha[l])] ^= 1
            elif which == 1:
                t[0] ^= 1
                t[1] ^= 1
            else:
                s = bytes([s[0] ^ 2]) + s[1:]
            return s, tuple(t), w
        c.pub, c.shares = ref.shard(ctx, alpha, nonce, rand, betas_hook=keep,
                                    twist=twist)
    else:
        # Equal root keys: every pattern of active prefixes can be programmed.
        log.probe('multi-path')
        free = {ch.draw(cfg.bits)} | (
            {lv} if ch.chance(700) else set()) | (
            set(range(cfg.bits)) if ch.chance(200) else set())
        wrong_auth = ch.draw(2)
        if lv > 2 and ch.chance(400):
            free = {ch.draw(lv - 1)}      # two paths, far from one another
        c.note = f'several paths, branching at {sorted(free)[:8]}'
        rand = rand[:16] + rand[:16] + rand[32:]
        build_multi(ref, c, ctx, alpha, nonce, rand, free, wrong_auth)
    return c


def build_multi(ref, c, ctx, alpha, nonce, rand, free, wrong_auth):
    idpf = ref.idpf
    pub, shares = ref.shard(ctx, alpha, nonce, rand,
                            betas_hook=lambda b, k: _keep(c, b, k))
    # Programme correction words directly.
    key = rand[:16]
    cws = []
    nodes = [(key, 0, 1)]       # (common seed, control bit 0, control bit 1)
    for lv in range(ref.bits):
        p = ref.field(lv)
        tcw = (1, 1) if lv in free else (
            (0, 1) if alpha[lv] else (1, 0))
        nxt = []
        for seed, t0, t1 in nodes:
            s, t = idpf.extend(lv, seed, ctx, nonce)
            for b in (0, 1):
                if not tcw[b]:
                    continue
                n0 = t[b] ^ (tcw[b] if t0 else 0)
                n1 = t[b] ^ (tcw[b] if t1 else 0)
                ns, _ = idpf.convert(lv, s[b], ctx, nonce)
                nxt.append((ns, n0, n1))
        nodes = nxt[:8]
        signs = [a - b for _, a, b in nodes]
        k = c.ks[lv]
        D = sum(signs)
        sg = 1 if D >= 0 else -1
        au = k + (sg * D - 1 if wrong_auth and len(nodes) > 1 else 0)
        cws.append((bytes(16), tcw, [sg % p, sg * au % p]))
    c.pub, c.shares = idpf.encode_public(cws), shares


def _keep(c, betas, ks):
    c.ks = list(ks)
    return betas
