"""Cheating Prio3 clients."""
from . import ref as R
from . import sut as S
from .sut import flp_mod, vdaf_prio3


# ---------------------------------------------------------------- algebra

def sqrt_mod(a, p):
    """Square root or None (Tonelli-Shanks)."""
    a %= p
    if a == 0:
        return 0
    if pow(a, (p - 1) // 2, p) != 1:
        return None
    q, s = p - 1, 0
    while q % 2 == 0:
        q //= 2
        s += 1
    z = 2
    while pow(z, (p - 1) // 2, p) != p - 1:
        z += 1
    m, c, t, r = s, pow(z, q, p), pow(a, q, p), pow(a, (q + 1) // 2, p)
    while t != 1:
        i, u = 0, t
        while u != 1:
            u = u * u % p
            i += 1
        b = pow(c, 1 << (m - i - 1), p)
        m, c, t, r = i, b * b % p, t * b * b % p, r * b % p
    return r


def quad(p, a, b, c):
    """A root of a y^2 + b y + c, or None."""
    a, b, c = a % p, b % p, c % p
    if a == 0:
        return None if b == 0 else -c * pow(b, p - 2, p) % p
    d = sqrt_mod(b * b - 4 * a * c, p)
    if d is None:
        return None
    return (d - b) * pow(2 * a, p - 2, p) % p


def cancel_pair(p, w0, w1, start):
    """x, y, not bits, with w0 x(x-1) + w1 y(y-1) = 0."""
    for k in range(200):
        x = (start + k) % p
        if x in (0, 1):
            continue
        y = quad(p, w1, -w1, w0 * x * (x - 1))
        if y is not None and y not in (0, 1):
            return x, y
    return None


def cancel_triple(p, w, start, total=1):
    """x, y, z with x+y+z = total and sum w_i v(v-1) = 0, not all bits."""
    for k in range(200):
        x = (start + k) % p
        if x in (0, 1):
            continue
        s = (total - x) % p
        # y free, z = s - y
        a = w[1] + w[2]
        b = -w[1] - 2 * w[2] * s + w[2]
        c = w[0] * x * (x - 1) + w[2] * (s * s - s)
        y = quad(p, a, b, c)
        if y is not None:
            return x, y, (s - y) % p
    return None


def cancel_sum(p, s):
    """x, y, not bits, with x + y = s and x(x-1) + y(y-1) = 0, or None."""
    if s in (0, 1, 2):
        return None
    d = sqrt_mod(s * (2 - s), p)
    if d is None:
        return None
    x = (s + d) * pow(2, p - 2, p) % p
    return x, (s - x) % p


# ---------------------------------------------------------------- vectors

def bad_values(p):
    return [2, p - 1, 3, (p + 1) // 2, p - 2, 1 << 31]


def valid_vec(cfg, vec):
    """Does the encoded vector stand for a measurement in the domain?"""
    p = cfg.modulus()
    vec = [x % p for x in vec]
    k = cfg.kind
    if k == 'mixed':
        a, b = vec[:cfg.na], vec[cfg.na:cfg.na + cfg.nb]
        return all(x < 2 for x in a) and all(x < cfg.deg for x in b) and \
            vec[-1] == a[0] * b[0] % p
    if not all(x < 2 for x in vec):
        return False
    if k == 'histogram':
        return sum(vec) == 1
    if k == 'multihot':
        w = R.range_weights(cfg.mx)
        return sum(vec[:cfg.length]) == sum(
            x * y for x, y in zip(w, vec[cfg.length:])) % p
    return True


def strides(cfg, n):
    """Distances at which separate checks might be mixed up."""
    out = [1]
    for unit in {1, getattr(cfg, 'chunk', 1)}:
        while unit < n:
            out.append(unit)
            unit *= 2
    return sorted(set(out))


def strided(ch, cfg, n):
    """Two entries some power of two apart whose errors cancel exactly if the
    two are checked with the same weight; everything else is right."""
    p = cfg.modulus()
    d = ch.pick([x for x in strides(cfg, n) if x < n])
    i = ch.draw(n - d)
    j = i + d
    if cfg.kind in ('sum', 'sumvec', 'multiproof'):
        got = cancel_pair(p, 1, 1, 2 + ch.draw(1000))
        if got is None:
            return None
        vec = [ch.draw(2) for _ in range(n)]
        vec[i], vec[j] = got
        return vec, f'cancelling pair at {i},{j}'
    if cfg.kind == 'histogram':
        for s in range(-1, 2 - n, -1):
            got = cancel_sum(p, s)
            if got:
                break
        else:
            return None
        vec = [0] * n
        rest = [k for k in range(n) if k not in (i, j)]
        for k in rest[:1 - s]:
            vec[k] = 1
        if sum(vec) != 1 - s:
            return None
        vec[i], vec[j] = got
        return vec, f'cancelling pair at {i},{j} with right sum'
    if cfg.kind == 'multihot':
        w = R.range_weights(cfg.mx)
        total = ch.draw(cfg.mx + 1)
        wt = R.range_encode(total, cfg.mx)
        if j >= cfg.length:
            return None
        rest = [k for k in range(cfg.length) if k not in (i, j)]
        for s in list(range(-1, -1 - len(rest), -1)) + list(range(3, total)):
            got = cancel_sum(p, s)
            if got and 0 <= total - s <= len(rest):
                vec = [0] * cfg.length + wt
                for k in rest[:total - s]:
                    vec[k] = 1
                vec[i], vec[j] = got
                assert sum(vec[:cfg.length]) % p == sum(
                    x * y for x, y in zip(w, wt)) % p
                return vec, f'cancelling pair at {i},{j} with right weight'
    return None


def bad_vector(ch, cfg, c):
    """An encoded vector outside the domain, with a label."""
    p = cfg.modulus()
    base = [x % p for x in c.encode(cfg.gen_meas(ch))]
    n = len(base)
    if n > 2 and ch.chance(400 if n > 16 else 100):
        got = strided(ch, cfg, n)
        if got and not valid_vec(cfg, got[0]):
            return got
    for _ in range(20):
        vec = list(base)
        how = ch.draw(8)
        if how == 0:
            i = ch.draw(n)
            vec[i] = ch.pick(bad_values(p))
            label = f'value {vec[i]} at {i}'
        elif how == 1 and n >= 2:
            i = ch.draw(n - 1)
            j = i + 1 + ch.draw(n - i - 1)
            got = cancel_pair(p, 1, 1, 2 + ch.draw(1000))
            if got is None:
                continue
            vec[i], vec[j] = got
            label = f'cancelling pair at {i},{j}'
        elif how == 2 and cfg.kind == 'histogram' and n >= 3:
            idx = sorted(ch.shuffle(range(n))[:3])
            got = cancel_triple(p, (1, 1, 1), 2 + ch.draw(1000))
            if got is None:
                continue
            vec = [0] * n
            for i, x in zip(idx, got):
                vec[i] = x
            label = f'cancelling triple at {idx}'
        elif how == 3 and cfg.kind == 'histogram':
            vec = [0] * n
            for i in ch.shuffle(range(n))[:ch.pick([0, 2, 3, n])]:
                vec[i] = 1
            label = f'{sum(vec)} buckets'
        elif how == 4 and cfg.kind == 'histogram' and n >= 2:
            vec = [0] * n
            i, j = ch.shuffle(range(n))[:2]
            vec[i], vec[j] = ch.pick([(2, p - 1), (3, p - 2),
                                      (5, p - 4)])
            label = 'buckets summing to one'
        elif how == 5 and cfg.kind == 'multihot':
            on = ch.shuffle(range(cfg.length))[:ch.between(0, cfg.length)]
            bits = [int(i in on) for i in range(cfg.length)]
            wt = R.range_encode(ch.draw(cfg.mx + 1), cfg.mx)
            vec = bits + wt
            label = f'weight {len(on)} reported {wt}'
        elif how == 6 and cfg.kind == 'multihot':
            # reported weight made right with an entry that is not a bit
            bits = [1] * cfg.length
            w = R.range_weights(cfg.mx)
            vec = bits + [0] * len(w)
            i = ch.draw(len(w))
            vec[cfg.length + i] = cfg.length * pow(w[i], p - 2, p) % p
            label = 'forged reported weight'
        elif how == 7 and cfg.kind == 'mixed':
            vec[-1] = (vec[-1] + ch.between(1, 3)) % p
            label = 'wrong product'
        else:
            continue
        if not valid_vec(cfg, vec):
            return vec, label
    vec = list(base)
    vec[0] = 2 if cfg.kind != 'mixed' else 7
    return vec, 'value at 0'


def lone_error(ch, cfg, c, i):
    """A vector with one entry out of its domain, everything else (sums,
    weights, products) made right; None when there is no such vector."""
    p, k = cfg.modulus(), cfg.kind
    vec = [x % p for x in c.encode(cfg.gen_meas(ch))]
    if k in ('count', 'sum', 'sumvec', 'multiproof'):
        vec[i] = ch.pick(bad_values(p))
    elif k == 'histogram':
        ones = ch.between(2, max(2, cfg.length - 1))
        rest = [j for j in range(cfg.length) if j != i]
        if len(rest) < ones:
            return None
        vec = [0] * cfg.length
        for j in ch.shuffle(rest)[:ones]:
            vec[j] = 1
        vec[i] = (1 - ones) % p
    elif k == 'multihot':
        w = R.range_weights(cfg.mx)
        n = cfg.length
        on = ch.shuffle([j for j in range(n) if j != i])
        on = on[:ch.between(0, len(on))]
        vec = [int(j in on) for j in range(n)] + [0] * len(w)
        if i < n:
            wt = R.range_encode(ch.draw(cfg.mx + 1), cfg.mx)
            vec[n:] = wt
            vec[i] = (sum(x * y for x, y in zip(w, wt)) - len(on)) % p
        else:
            vec[i] = len(on) * pow(w[i - n], p - 2, p) % p
    else:
        a = vec[:cfg.na]
        b = vec[cfg.na:cfg.na + cfg.nb]
        if i < cfg.na:
            a[i] = ch.pick(bad_values(p))
        elif i < cfg.na + cfg.nb:
            b[i - cfg.na] = cfg.deg + ch.draw(5)
        both = a + b
        vec = both + [a[0] * b[0] % p]
        if i >= len(both):
            vec[-1] = (vec[-1] + 1) % p
    return None if valid_vec(cfg, vec) else vec


def lone_flip(ch, cfg, c, i):
    """A right vector with one entry replaced by the other bit."""
    vec = [x % cfg.modulus() for x in c.encode(cfg.gen_meas(ch))]
    vec[i] = 1 - vec[i] if vec[i] < 2 else 0
    return None if valid_vec(cfg, vec) else vec


# ---------------------------------------------------------------- proofs

def patched_proof(ref, proof, jr, vec, t=None):
    """Change gadget outputs in the proof so that the circuit output is zero.
    With t given (guessed test points, one per gadget) the change also
    vanishes at t."""
    flp, p = ref.flp, ref.p
    c = flp.c
    parts = [[list(s), list(g)] for s, g in flp.split(proof)]
    offs = []
    o = 0
    for g, L in zip(c.gadgets, flp.L):
        offs.append(o + g.arity)
        o += g.arity + L

    def outputs():
        ev = [R.extend_evals(p, g, N) for (_, g), N in zip(parts, flp.N)]
        out, _ = flp.record(
            vec, [x for s, _ in parts for x in s], jr, 1,
            lambda g, k, ins: ev[g][k * (flp.N[g] // flp.P[g])])
        return out

    def bump(gi, call, amount):
        N, P, L = flp.N[gi], flp.P[gi], flp.L[gi]
        xs = R.roots(p, N)
        k = call * (N // P)
        if t is None:
            if k < L:
                parts[gi][1][k] = (parts[gi][1][k] + amount) % p
            return
        inv = pow(xs[k] - t[gi], p - 2, p)
        for i in range(L):
            parts[gi][1][i] = (parts[gi][1][i]
                               + amount * (xs[i] - t[gi]) * inv) % p

    # Linearise: find for every output a gadget call that influences it.
    base = outputs()
    for idx in range(len(base)):
        if base[idx] == 0:
            continue
        for gi, calls in enumerate(c.calls):
            hit = False
            for call in range(1, calls + 1):
                if t is None:
                    probe = 1
                else:
                    probe = 1
                save = [list(parts[gi][1])]
                bump(gi, call, probe)
                d = (outputs()[idx] - base[idx]) % p
                parts[gi][1] = save[0]
                if d:
                    bump(gi, call, -base[idx] * pow(d, p - 2, p) % p)
                    hit = True
                    break
            if hit:
                base = outputs()
                break
    return [x for s, g in parts for x in s + g]


# ------------------------------------------------- clients built on the code

class Spy:
    """Survives deepcopy as itself."""

    def __init__(self):
        self.jr = []
        self.vec = None

    def __deepcopy__(self, memo):
        return self


def evil_client(cfg):
    """The code's own client, with a circuit whose encoder returns whatever
    the attacker wants and which shows the attacker the joint randomness."""
    spy = Spy()
    base, args = {
        'count': (flp_mod.Count, (S.F.Field64,)),
        'sum': (flp_mod.Sum, (S.F.Field64, getattr(cfg, 'mx', 0))),
        'sumvec': (flp_mod.SumVec, (S.F.Field128,
                                    getattr(cfg, 'length', 0),
                                    getattr(cfg, 'mx', 0),
                                    getattr(cfg, 'chunk', 0))),
        'histogram': (flp_mod.Histogram, (S.F.Field128,
                                          getattr(cfg, 'length', 0),
                                          getattr(cfg, 'chunk', 0))),
        'multihot': (flp_mod.MultihotCountVec, (S.F.Field128,
                                                getattr(cfg, 'length', 0),
                                                getattr(cfg, 'mx', 0),
                                                getattr(cfg, 'chunk', 0))),
    }.get(cfg.kind, (None, None))
    if base is None:
        fld = S.field_of(cfg.p)
        if cfg.kind == 'multiproof':
            base, args = flp_mod.SumVec, (fld, cfg.length, cfg.mx, cfg.chunk)
        else:
            from .cfg import MixedValid
            base, args = MixedValid, (fld, cfg.na, cfg.nb, cfg.deg,
                                      cfg.use_jr, cfg.mean)

    class EvilValid(base):
        def encode(self, measurement):
            return [self.field(x) for x in spy.vec]

        def eval(self, meas, joint_rand, num_shares):
            spy.jr.append([x.int() for x in joint_rand])
            return super().eval(meas, joint_rand, num_shares)

    class EvilPrio3(vdaf_prio3.Prio3):
        ID = cfg.ident
        xof = S.xof_mod.XofTurboShake128
        VERIFY_KEY_SIZE = xof.SEED_SIZE

        def __init__(self):
            super().__init__(cfg.shares, flp_mod.FlpBBCGGI19(EvilValid(*args)),
                             getattr(cfg, 'proofs', 1))

    return EvilPrio3(), spy


def adaptive_vector(cfg, jr, start):
    """A vector whose errors cancel under the given joint randomness."""
    p = cfg.modulus()
    k = cfg.kind
    r = jr[0]
    if k in ('sumvec', 'multiproof'):
        n = cfg.length * cfg.mx.bit_length()
        if n < 2:
            return None
        i, j = 0, 1
        w = weights(cfg, jr, n)
        got = cancel_pair(p, w[i], w[j], start)
        if got is None:
            return None
        vec = [0] * n
        vec[i], vec[j] = got
        return vec
    if k == 'histogram':
        n = cfg.length
        if n < 3:
            return None
        w = weights(cfg, jr, n)
        got = cancel_triple(p, w[:3], start)
        if got is None:
            return None
        return list(got) + [0] * (n - 3)
    if k == 'multihot':
        bits = cfg.mx.bit_length()
        n = cfg.length + bits
        if cfg.length < 3:
            return None
        w = weights(cfg, jr, n)
        got = cancel_triple(p, w[:3], start, total=1)
        if got is None:
            return None
        return list(got) + [0] * (cfg.length - 3) + R.range_encode(1, cfg.mx)
    if k == 'mixed' and cfg.use_jr and cfg.na >= 2:
        got = cancel_pair(p, jr[0], jr[0] * jr[0] % p, start)
        if got is None:
            return None
        return list(got) + [0] * (cfg.na - 2) + [0] * cfg.nb + [0]
    return None


def some_positions(ch, n, k):
    """k different positions, often the last ones."""
    how = ch.draw(3)
    if how == 0:
        return list(range(n - k, n))
    if how == 1:
        lo = n // 2 if n // 2 + k <= n else n - k
        return sorted(lo + i for i in ch.shuffle(range(n - lo))[:k])
    return sorted(ch.shuffle(range(n))[:k])


def adaptive_from(ch, cfg, base, jr):
    """Changes a few entries of a right vector so that their errors cancel
    under the given joint randomness; everything else stays."""
    p, k = cfg.modulus(), cfg.kind
    n = len(base)
    start = 2 + ch.draw(1000)
    vec = list(base)
    if k in ('sumvec', 'multiproof') and n >= 2:
        w = weights(cfg, jr, n)
        idx = some_positions(ch, n, 2)
        got = cancel_pair(p, w[idx[0]], w[idx[1]], start)
    elif k in ('histogram', 'multihot') and cfg.length >= 3:
        w = weights(cfg, jr, n)
        idx = some_positions(ch, cfg.length, 3)
        got = cancel_triple(p, [w[i] for i in idx], start,
                            sum(base[i] for i in idx))
    else:
        return None
    if got is None:
        return None
    for i, x in zip(idx, got):
        vec[i] = x
    return None if valid_vec(cfg, vec) else (vec, idx)


def weights(cfg, jr, n):
    p = cfg.modulus()
    out = []
    for i in range(n):
        out.append(pow(jr[i // cfg.chunk], i % cfg.chunk + 1, p))
    return out


# ------------------------------------------------- out-of-domain measurements

def bad_measurement(ch, cfg):
    """A measurement outside the domain, for the honest client code."""
    k = cfg.kind
    big = [2**16, 2**32, 2**63, 2**64 - 2**32 + 1, 2**64 - 2**32 + 2,
           2**128]
    if k == 'count':
        return ch.pick([2, -1, 3, 255, 2**64, R.P64, R.P64 + 1, -2])
    if k == 'sum':
        m = cfg.mx
        o = [m + 1, -1, 2 * m + 1, -m, -m - 1, m + 2, 1 << m.bit_length(),
             (1 << m.bit_length()) + 1, R.P64, R.P64 + m, -2]
        return ch.pick([x for x in o if x < 0 or x > m])
    if k in ('sumvec', 'multiproof'):
        m = cfg.mx
        good = [ch.draw(2) for _ in range(cfg.length)]
        how = ch.draw(4)
        if how == 2:
            return good[:-1]
        if how == 3:
            return good + [0]
        i = ch.draw(cfg.length)
        o = [m + 1, -1, 2 * m + 2, -m - 1, 1 << m.bit_length(),
             cfg.modulus(), cfg.modulus() + 1, -2, -m]
        good[i] = ch.pick([x for x in o if x < 0 or x > m])
        return good
    if k == 'histogram':
        n = cfg.length
        return ch.pick([n, -1, n + 1, -n, -2, 2 * n, 2**31] + big)
    if k == 'multihot':
        n = cfg.length
        how = ch.draw(4)
        if how == 0 and cfg.mx < n:
            w = ch.between(cfg.mx + 1, n)
            on = set(ch.shuffle(range(n))[:w])
            return [i in on for i in range(n)]
        if how == 1:
            return [False] * (n + 1)
        if how == 2:
            return [False] * (n - 1)
        v = [0] * n
        v[ch.draw(n)] = ch.pick([2, -1, 3])
        return v
    return None
