"""Independent implementation of the specification on plain integers.

Written from the text of the draft, not from the code under test, and imports
nothing from it.  It serves as oracle, as a peer node of mixed deployments and
as the engine of cheating clients.  All messages are byte strings; rejection is
signalled by `Reject`.
"""
import itertools

from Cryptodome.Cipher import AES
from Cryptodome.Hash import TurboSHAKE128

VERSION = 18

P64 = 2**32 * 4294967295 + 1
P96 = 2**64 * 4294966555 + 1
P128 = 2**66 * 4611686018427387897 + 1
P255 = 2**255 - 19
ENC = {P64: 8, P96: 12, P128: 16, P255: 32}
GEN = {P64: (7, 4294967295, 32), P96: (3, 4294966555, 64),
       P128: (7, 4611686018427387897, 66)}


class Reject(Exception):
    pass


def need(cond, why):
    if not cond:
        raise Reject(why)


# ---------------------------------------------------------------- fields

def enc_vec(p, vec):
    n = ENC[p]
    return b''.join(x.to_bytes(n, 'little') for x in vec)


def dec_vec(p, data, count=None):
    n = ENC[p]
    need(len(data) % n == 0, 'ragged vector')
    if count is not None:
        need(len(data) == n * count, 'wrong vector length')
    out = []
    for i in range(0, len(data), n):
        x = int.from_bytes(data[i:i + n], 'little')
        need(x < p, 'element out of range')
        out.append(x)
    return out


_root_cache = {}


def root(p, n):
    """Primitive n-th root of unity, n a power of two."""
    k = _root_cache.get((p, n))
    if k is None:
        base, exp, log_order = GEN[p]
        g = pow(base, exp, p)
        k = pow(g, (1 << log_order) // n, p)
        _root_cache[(p, n)] = k
    return k


_pow_cache = {}


def roots(p, n):
    v = _pow_cache.get((p, n))
    if v is None:
        w = root(p, n)
        v = [1]
        for _ in range(n - 1):
            v.append(v[-1] * w % p)
        _pow_cache[(p, n)] = v
    return v


def _fft(p, a, w):
    n = len(a)
    if n == 1:
        return list(a)
    e = _fft(p, a[0::2], w * w % p)
    o = _fft(p, a[1::2], w * w % p)
    out = [0] * n
    t = 1
    h = n // 2
    for i in range(h):
        u = t * o[i] % p
        out[i] = (e[i] + u) % p
        out[i + h] = (e[i] - u) % p
        t = t * w % p
    return out


def evals_to_coeffs(p, ys):
    n = len(ys)
    w = root(p, n)
    inv = pow(n, p - 2, p)
    return [x * inv % p for x in _fft(p, ys, pow(w, p - 2, p))]


def coeffs_to_evals(p, cs, n):
    return _fft(p, cs + [0] * (n - len(cs)), root(p, n))


_ext_cache = {}


def extend_evals(p, ys, n):
    """Given values at the first len(ys) n-th roots of unity of a polynomial of
    degree < len(ys), return the values at all n of them."""
    L = len(ys)
    if L == n:
        return list(ys)
    if L == n - 1:
        # the coefficient of x^(n-1) is zero: sum y_i w^i = 0
        xs = roots(p, n)
        last = -sum(y * x for y, x in zip(ys, xs)) % p
        return list(ys) + [last * pow(xs[-1], p - 2, p) % p]
    rows = _ext_cache.get((p, L, n))
    if rows is None:
        xs = roots(p, n)
        wts = []
        for i in range(L):
            d = 1
            for j in range(L):
                if i != j:
                    d = d * (xs[i] - xs[j]) % p
            wts.append(pow(d, p - 2, p))
        rows = []
        for k in range(L, n):
            full = 1
            for j in range(L):
                full = full * (xs[k] - xs[j]) % p
            rows.append([full * wts[i] * pow(xs[k] - xs[i], p - 2, p) % p
                         for i in range(L)])
        _ext_cache[(p, L, n)] = rows
    return list(ys) + [sum(a * b for a, b in zip(r, ys)) % p for r in rows]


def lagrange_at(p, n, t):
    """Coefficients c with f(t) = sum c_i f(w^i) for deg f < n; t no root."""
    xs = roots(p, n)
    # batch inversion of (t - x_i)
    ds = [(t - x) % p for x in xs]
    pre = [1]
    for d in ds:
        pre.append(pre[-1] * d % p)
    inv = pow(pre[-1], p - 2, p)
    out = [0] * n
    for i in reversed(range(n)):
        out[i] = inv * pre[i] % p
        inv = inv * ds[i] % p
    scale = (pow(t, n, p) - 1) * pow(n, p - 2, p) % p
    return [scale * x % p * o % p for x, o in zip(xs, out)]


def next_pow2(n):
    k = 1
    while k < n:
        k *= 2
    return k


# ---------------------------------------------------------------- XOFs

def ts128(msg, domain, length):
    h = TurboSHAKE128.new(domain=domain)
    h.update(msg)
    return h.read(length)


class Stream:
    """TurboSHAKE128-based expander."""

    def __init__(self, seed, dst, binder):
        self.h = TurboSHAKE128.new(domain=1)
        self.h.update(len(dst).to_bytes(2, 'little') + dst
                      + bytes([len(seed)]) + seed + binder)

    def read(self, n):
        return self.h.read(n) if n else b''

    def vec(self, p, n):
        out = []
        size = ENC[p]
        mask = next_pow2(p) - 1
        while len(out) < n:
            x = int.from_bytes(self.read(size), 'little') & mask
            if x < p:
                out.append(x)
        return out


_aes_cache = {}


class AesStream(Stream):
    def __init__(self, seed, dst, binder):
        key = (dst, binder)
        c = _aes_cache.get(key)
        if c is None:
            if len(_aes_cache) > 64:
                _aes_cache.clear()
            k = ts128(len(dst).to_bytes(2, 'little') + dst + binder, 2, 16)
            c = _aes_cache[key] = AES.new(k, AES.MODE_ECB)
        self.c = c
        self.seed = int.from_bytes(seed, 'little')
        self.buf = b''
        self.ctr = 0

    def read(self, n):
        while len(self.buf) < n:
            b = (self.seed ^ self.ctr).to_bytes(16, 'little')
            self.ctr += 1
            lo, hi = b[:8], b[8:]
            s = hi + bytes(x ^ y for x, y in zip(hi, lo))
            e = self.c.encrypt(s)
            self.buf += bytes(x ^ y for x, y in zip(e, s))
        out, self.buf = self.buf[:n], self.buf[n:]
        return out


def dst_of(klass, algo, usage, ctx):
    return (bytes([VERSION, klass]) + algo.to_bytes(4, 'big')
            + usage.to_bytes(2, 'big') + ctx)


# ---------------------------------------------------------------- circuits

class Gadget:
    def __init__(self, arity, degree, fn):
        self.arity, self.degree, self.fn = arity, degree, fn


def g_mul():
    return Gadget(2, 2, lambda p, v: v[0] * v[1] % p)


def g_poly(coeffs):
    def fn(p, v):
        acc = 0
        for c in reversed(coeffs):
            acc = (acc * v[0] + c) % p
        return acc
    return Gadget(1, len(coeffs) - 1, fn)


def g_parallel(sub, count):
    def fn(p, v):
        a = sub.arity
        return sum(sub.fn(p, v[i * a:(i + 1) * a]) for i in range(count)) % p
    return Gadget(sub.arity * count, sub.degree, fn)


def range_weights(mx):
    bits = mx.bit_length()
    w = [1 << i for i in range(bits - 1)]
    return w + [mx - sum(w)]


def range_encode(v, mx):
    w = range_weights(mx)
    rest = sum(w[:-1])
    last = 0
    if v > rest:
        last = 1
        v -= w[-1]
    return [(v >> i) & 1 for i in range(len(w) - 1)] + [last]


class Circuit:
    """p, meas_len, jr_len, out_len, eval_len, gadgets, calls."""
    jr_len = 0

    def decode(self, vec):
        return list(vec)


class CCount(Circuit):
    def __init__(self, p=P64):
        self.p = p
        self.meas_len = self.out_len = self.eval_len = 1
        self.gadgets, self.calls = [g_mul()], [1]

    def encode(self, m):
        return [int(m)]

    def eval(self, m, jr, shares, call):
        return [(call(0, [m[0], m[0]]) - m[0]) % self.p]

    def truncate(self, m):
        return list(m)

    def decode(self, vec):
        return vec[0]


class CSum(Circuit):
    def __init__(self, mx, p=P64):
        self.p, self.mx = p, mx
        self.w = range_weights(mx)
        n = len(self.w)
        self.meas_len = self.eval_len = n
        self.out_len = 1
        self.gadgets, self.calls = [g_poly([0, -1, 1])], [n]

    def encode(self, m):
        return range_encode(m, self.mx)

    def eval(self, m, jr, shares, call):
        return [call(0, [x]) for x in m]

    def truncate(self, m):
        return [sum(a * b for a, b in zip(self.w, m)) % self.p]

    def decode(self, vec):
        return vec[0]


class CChunked(Circuit):
    """Bit checks in chunks with joint randomness, shared by three circuits."""

    def setup(self, p, n, chunk):
        self.p, self.chunk = p, chunk
        self.meas_len = n
        calls = (n + chunk - 1) // chunk
        self.gadgets, self.calls = [g_parallel(g_mul(), chunk)], [calls]
        self.jr_len = calls

    def bits_check(self, m, jr, shares, call):
        p = self.p
        inv = pow(shares, p - 2, p)
        out = 0
        for i in range(self.calls[0]):
            r = jr[i]
            rp = r
            ins = []
            for j in range(self.chunk):
                k = i * self.chunk + j
                x = m[k] if k < len(m) else 0
                ins += [rp * x % p, (x - inv) % p]
                rp = rp * r % p
            out += call(0, ins)
        return out % p, inv


class CSumVec(CChunked):
    def __init__(self, length, mx, chunk, p=P128):
        self.mx, self.length = mx, length
        self.w = range_weights(mx)
        self.bits = len(self.w)
        self.setup(p, length * self.bits, chunk)
        self.out_len, self.eval_len = length, 1

    def encode(self, m):
        return list(itertools.chain.from_iterable(
            range_encode(v, self.mx) for v in m))

    def eval(self, m, jr, shares, call):
        return [self.bits_check(m, jr, shares, call)[0]]

    def truncate(self, m):
        b = self.bits
        return [sum(x * y for x, y in zip(self.w, m[i * b:(i + 1) * b]))
                % self.p for i in range(self.length)]


class CHistogram(CChunked):
    def __init__(self, length, chunk, p=P128):
        self.length = length
        self.setup(p, length, chunk)
        self.out_len, self.eval_len = length, 2

    def encode(self, m):
        v = [0] * self.length
        v[m] = 1
        return v

    def eval(self, m, jr, shares, call):
        rc, inv = self.bits_check(m, jr, shares, call)
        return [rc, (sum(m) - inv) % self.p]

    def truncate(self, m):
        return list(m)


class CMultihot(CChunked):
    def __init__(self, length, max_weight, chunk, p=P128):
        self.length, self.mx = length, max_weight
        self.w = range_weights(max_weight)
        self.setup(p, length + len(self.w), chunk)
        self.out_len, self.eval_len = length, 2

    def encode(self, m):
        bits = [int(x) for x in m]
        return bits + range_encode(sum(bits), self.mx)

    def eval(self, m, jr, shares, call):
        rc, _ = self.bits_check(m, jr, shares, call)
        a = sum(m[:self.length])
        b = sum(x * y for x, y in zip(self.w, m[self.length:]))
        return [rc, (a - b) % self.p]

    def truncate(self, m):
        return list(m[:self.length])


# ---------------------------------------------------------------- FLP

class Flp:
    def __init__(self, c):
        self.c = c
        self.p = c.p
        self.P = [next_pow2(1 + k) for k in c.calls]
        self.L = [g.degree * (P - 1) + 1 for g, P in zip(c.gadgets, self.P)]
        self.N = [next_pow2(x) for x in self.L]
        self.prove_rand_len = sum(g.arity for g in c.gadgets)
        self.query_rand_len = len(c.gadgets) + (
            c.eval_len if c.eval_len > 1 else 0)
        self.proof_len = sum(g.arity + L for g, L in zip(c.gadgets, self.L))
        self.verifier_len = 1 + sum(g.arity + 1 for g in c.gadgets)

    def _wires(self, seeds):
        out = []
        for g, P in zip(self.c.gadgets, self.P):
            s, seeds = seeds[:g.arity], seeds[g.arity:]
            out.append([[x] + [0] * (P - 1) for x in s])
        return out

    def record(self, meas, seeds, jr, shares, answer):
        """Evaluate the circuit; gadget call k of gadget g answered by
        answer(g, k, inputs); returns outputs and wires."""
        wires = self._wires(seeds)
        k = [0] * len(self.c.gadgets)

        def call(g, ins):
            k[g] += 1
            for j, x in enumerate(ins):
                wires[g][j][k[g]] = x % self.p
            return answer(g, k[g], ins)
        out = self.c.eval(meas, jr, shares, call)
        return out, wires

    def prove(self, meas, prove_rand, jr, lie=None):
        """lie(g, k, inputs, honest) may replace gadget answers (cheating)."""
        p = self.p
        _, wires = self.record(
            meas, prove_rand, jr, 1,
            lambda g, k, ins: self.c.gadgets[g].fn(p, ins))
        proof = []
        for gi, g in enumerate(self.c.gadgets):
            N, L = self.N[gi], self.L[gi]
            proof += [w[0] for w in wires[gi]]
            cols = [coeffs_to_evals(p, evals_to_coeffs(p, w), N)
                    for w in wires[gi]]
            proof += [g.fn(p, [c[i] for c in cols]) for i in range(L)]
        return proof

    def split(self, proof):
        parts = []
        for g, L in zip(self.c.gadgets, self.L):
            parts.append((proof[:g.arity], proof[g.arity:g.arity + L]))
            proof = proof[g.arity + L:]
        return parts

    def query(self, meas, proof, query_rand, jr, shares):
        p = self.p
        parts = self.split(proof)
        evals = [extend_evals(p, gp, N)
                 for (_, gp), N in zip(parts, self.N)]
        seeds = list(itertools.chain.from_iterable(s for s, _ in parts))
        out, wires = self.record(
            meas, seeds, jr, shares,
            lambda g, k, ins: evals[g][k * (self.N[g] // self.P[g])])
        if self.c.eval_len > 1:
            rand, query_rand = (query_rand[:self.c.eval_len],
                                query_rand[self.c.eval_len:])
            v = sum(r * o for r, o in zip(rand, out)) % p
        else:
            v = out[0] % p
        verifier = [v]
        for gi, t in enumerate(query_rand):
            need(pow(t, self.P[gi], p) != 1, 'test point is a root of unity')
            cw = lagrange_at(p, self.P[gi], t)
            for w in wires[gi]:
                verifier.append(sum(a * b for a, b in zip(cw, w)) % p)
            if pow(t, self.N[gi], p) == 1:
                i = roots(p, self.N[gi]).index(t)
                verifier.append(evals[gi][i])
            else:
                cg = lagrange_at(p, self.N[gi], t)
                verifier.append(
                    sum(a * b for a, b in zip(cg, evals[gi])) % p)
        return verifier

    def decide(self, verifier):
        if verifier[0] % self.p != 0:
            return False
        v = verifier[1:]
        for g in self.c.gadgets:
            w, y, v = v[:g.arity], v[g.arity], v[g.arity + 1:]
            if g.fn(self.p, w) % self.p != y % self.p:
                return False
        return True


# ---------------------------------------------------------------- Prio3

SEED = 32


class RefPrio3:
    rounds = 1
    nonce_size = 16
    key_size = 32

    def __init__(self, ident, circuit, shares, proofs=1):
        self.ident, self.c, self.shares, self.proofs = \
            ident, circuit, shares, proofs
        self.flp = Flp(circuit)
        self.p = circuit.p
        self.jr = circuit.jr_len > 0
        self.rand_size = SEED * shares * (2 if self.jr else 1)
        self.enc = ENC[self.p]

    # expansions
    def _vec(self, seed, usage, ctx, binder, n):
        return Stream(seed, dst_of(0, self.ident, usage, ctx),
                      binder).vec(self.p, n)

    def helper_meas(self, ctx, j, seed):
        return self._vec(seed, 1, ctx, bytes([j]), self.c.meas_len)

    def helper_proofs(self, ctx, j, seed):
        return self._vec(seed, 2, ctx, bytes([self.proofs, j]),
                         self.flp.proof_len * self.proofs)

    def joint_rands(self, ctx, seed):
        return self._vec(seed, 3, ctx, bytes([self.proofs]),
                         self.c.jr_len * self.proofs)

    def prove_rands(self, ctx, seed):
        return self._vec(seed, 4, ctx, bytes([self.proofs]),
                         self.flp.prove_rand_len * self.proofs)

    def query_rands(self, key, ctx, nonce):
        return self._vec(key, 5, ctx, bytes([self.proofs]) + nonce,
                         self.flp.query_rand_len * self.proofs)

    def jr_seed(self, ctx, parts):
        return Stream(bytes(SEED), dst_of(0, self.ident, 6, ctx),
                      b''.join(parts)).read(SEED)

    def jr_part(self, ctx, j, blind, meas, nonce):
        return Stream(blind, dst_of(0, self.ident, 7, ctx),
                      bytes([j]) + nonce + enc_vec(self.p, meas)).read(SEED)

    # client
    def shard(self, ctx, measurement, nonce, rand):
        return self.shard_vec(ctx, self.c.encode(measurement), nonce, rand)

    def shard_vec(self, ctx, meas, nonce, rand, forge=None, fake_jr=None,
                  parts_hook=None):
        """Shard an arbitrary encoded vector.  `forge(i, proof, jr)` may
        replace proof i; `fake_jr(jr)` may replace the joint randomness the
        prover uses; `parts_hook(parts)` may replace the published parts."""
        need(len(nonce) == self.nonce_size, 'nonce size')
        need(len(rand) == self.rand_size, 'rand size')
        p = self.p
        seeds = [rand[i:i + SEED] for i in range(0, len(rand), SEED)]
        n = self.shares - 1
        if self.jr:
            hs = seeds[0:2 * n:2]
            hb = seeds[1:2 * n:2]
            lb, prove_seed = seeds[2 * n], seeds[2 * n + 1]
        else:
            hs, prove_seed = seeds[:n], seeds[n]
            hb, lb = [None] * n, None
        leader = [x % p for x in meas]
        parts = []
        for j in range(n):
            hm = self.helper_meas(ctx, j + 1, hs[j])
            leader = [(a - b) % p for a, b in zip(leader, hm)]
            if self.jr:
                parts.append(self.jr_part(ctx, j + 1, hb[j], hm, nonce))
        jrs = []
        if self.jr:
            parts.insert(0, self.jr_part(ctx, 0, lb, leader, nonce))
            if parts_hook:
                parts = parts_hook(parts)
            jrs = self.joint_rands(ctx, self.jr_seed(ctx, parts))
            if fake_jr:
                jrs = fake_jr(jrs)
        prs = self.prove_rands(ctx, prove_seed)
        k, q = self.flp.prove_rand_len, self.c.jr_len
        proofs = []
        for i in range(self.proofs):
            jr = jrs[i * q:(i + 1) * q]
            pf = self.flp.prove([x % p for x in meas],
                                prs[i * k:(i + 1) * k], jr)
            if forge:
                pf = forge(i, pf, jr)
            proofs += pf
        for j in range(n):
            hp = self.helper_proofs(ctx, j + 1, hs[j])
            proofs = [(a - b) % p for a, b in zip(proofs, hp)]
        out = [enc_vec(p, leader) + enc_vec(p, proofs) + (lb or b'')]
        out += [hs[j] + (hb[j] or b'') for j in range(n)]
        return b''.join(parts), out

    # aggregator
    def parse_share(self, ctx, j, share):
        if j == 0:
            a = self.c.meas_len * self.enc
            b = a + self.flp.proof_len * self.proofs * self.enc
            need(len(share) == b + (SEED if self.jr else 0), 'share length')
            return (dec_vec(self.p, share[:a]), dec_vec(self.p, share[a:b]),
                    share[b:])
        need(len(share) == SEED * (2 if self.jr else 1), 'share length')
        return (self.helper_meas(ctx, j, share[:SEED]),
                self.helper_proofs(ctx, j, share[:SEED]), share[SEED:])

    def verify_init(self, key, ctx, j, ap, nonce, pub, share):
        need(ap == b'', 'agg param')
        meas, proofs, blind = self.parse_share(ctx, j, share)
        need(len(pub) == (SEED * self.shares if self.jr else 0), 'public')
        jrs, seed, part = [], b'', b''
        if self.jr:
            parts = [pub[i:i + SEED] for i in range(0, len(pub), SEED)]
            part = parts[j] = self.jr_part(ctx, j, blind, meas, nonce)
            seed = self.jr_seed(ctx, parts)
            jrs = self.joint_rands(ctx, seed)
        qrs = self.query_rands(key, ctx, nonce)
        a, b, d = (self.flp.proof_len, self.flp.query_rand_len,
                   self.c.jr_len)
        v = []
        for i in range(self.proofs):
            v += self.flp.query(meas, proofs[i * a:(i + 1) * a],
                                qrs[i * b:(i + 1) * b],
                                jrs[i * d:(i + 1) * d], self.shares)
        return (self.c.truncate(meas), seed), enc_vec(self.p, v) + part

    def shares_to_msg(self, ctx, ap, vshares):
        need(len(vshares) == self.shares, 'number of verifier shares')
        n = self.flp.verifier_len * self.proofs
        tot = [0] * n
        parts = []
        for s in vshares:
            need(len(s) == n * self.enc + (SEED if self.jr else 0),
                 'verifier share length')
            v = dec_vec(self.p, s[:n * self.enc])
            tot = [(x + y) % self.p for x, y in zip(tot, v)]
            parts.append(s[n * self.enc:])
        k = self.flp.verifier_len
        for i in range(self.proofs):
            need(self.flp.decide(tot[i * k:(i + 1) * k]), 'proof rejected')
        return self.jr_seed(ctx, parts) if self.jr else b''

    def verify_next(self, ctx, state, msg):
        out, seed = state
        need(msg == seed, 'joint randomness check')
        return 'out', enc_vec(self.p, out)

    # aggregation
    def field_for(self, ap):
        return self.p

    def agg_len(self, ap):
        return self.c.out_len

    def unshard(self, ap, shares, n):
        tot = [0] * self.c.out_len
        for s in shares:
            v = dec_vec(self.p, s, self.c.out_len)
            tot = [(a + b) % self.p for a, b in zip(tot, v)]
        return self.c.decode(tot)


# ---------------------------------------------------------------- IDPF

def xor(a, b):
    return bytes(x ^ y for x, y in zip(a, b))


class Idpf:
    def __init__(self, value_len, bits):
        self.vl, self.bits = value_len, bits

    def field(self, level):
        return P64 if level < self.bits - 1 else P255

    def _stream(self, level, seed, usage, ctx, nonce):
        k = AesStream if level < self.bits - 1 else Stream
        return k(seed, dst_of(1, 0, usage, ctx), nonce)

    def extend(self, level, seed, ctx, nonce):
        d = self._stream(level, seed, 0, ctx, nonce).read(32)
        s, t = [], []
        for half in (d[:16], d[16:]):
            t.append(half[0] & 1)
            s.append(bytes([half[0] & 0xFE]) + half[1:])
        return s, t

    def convert(self, level, seed, ctx, nonce):
        st = self._stream(level, seed, 1, ctx, nonce)
        nxt = st.read(16)
        return nxt, st.vec(self.field(level), self.vl)

    def gen(self, alpha, betas, ctx, nonce, rand, twist=None):
        """betas: one list of ints per level.  `twist(level, cw)` may replace
        correction words (seed, ctrl pair, payload), for cheating clients."""
        keys = [rand[:16], rand[16:]]
        s, t = list(keys), [0, 1]
        cws = []
        for lv in range(self.bits):
            p = self.field(lv)
            bit = int(alpha[lv])
            e = [self.extend(lv, s[b], ctx, nonce) for b in (0, 1)]
            scw = xor(e[0][0][1 - bit], e[1][0][1 - bit])
            tcw = [e[0][1][0] ^ e[1][1][0] ^ bit ^ 1,
                   e[0][1][1] ^ e[1][1][1] ^ bit]
            w = [None, None]
            nt = [0, 0]
            for b in (0, 1):
                x = e[b][0][bit]
                nt[b] = e[b][1][bit]
                if t[b]:
                    x = xor(x, scw)
                    nt[b] ^= tcw[bit]
                s[b], w[b] = self.convert(lv, x, ctx, nonce)
            t = nt
            wcw = [(be - a + b) % p
                   for be, a, b in zip(betas[lv], w[0], w[1])]
            if t[1]:
                wcw = [-x % p for x in wcw]
            cw = (scw, tuple(tcw), wcw)
            if twist:
                cw = twist(lv, cw)
            cws.append(cw)
        return cws, keys

    def encode_public(self, cws):
        bits = [b for _, t, _ in cws for b in t]
        out = bytearray((len(bits) + 7) // 8)
        for i, b in enumerate(bits):
            out[i // 8] |= b << (i % 8)
        out = bytes(out) + b''.join(s for s, _, _ in cws)
        for lv, (_, _, w) in enumerate(cws):
            out += enc_vec(self.field(lv), w)
        return out

    def decode_public(self, data):
        n = self.bits
        nb = (2 * n + 7) // 8
        want = nb + 16 * n + (n - 1) * 8 * self.vl + 32 * self.vl
        need(len(data) == want, 'public share length')
        v = int.from_bytes(data[:nb], 'little')
        need(v >> (2 * n) == 0, 'padding bits')
        cws = []
        o = nb + 16 * n
        for lv in range(n):
            p = self.field(lv)
            ln = ENC[p] * self.vl
            cws.append((data[nb + 16 * lv:nb + 16 * lv + 16],
                        ((v >> (2 * lv)) & 1, (v >> (2 * lv + 1)) & 1),
                        dec_vec(p, data[o:o + ln])))
            o += ln
        return cws

    def eval(self, agg_id, cws, key, level, prefixes, ctx, nonce):
        cache = {(): (key, agg_id, None)}
        p = self.field(level)

        def node(path):
            r = cache.get(path)
            if r is None:
                s, t, _ = node(path[:-1])
                lv = len(path) - 1
                b = int(path[-1])
                es, et = self.extend(lv, s, ctx, nonce)
                x, c = es[b], et[b]
                if t:
                    x = xor(x, cws[lv][0])
                    c ^= cws[lv][1][b]
                ns, w = self.convert(lv, x, ctx, nonce)
                r = cache[path] = (ns, c, w)
            return r
        out = []
        for pre in prefixes:
            for k in range(1, len(pre)):
                node(tuple(pre[:k]))
            _, t, w = node(tuple(pre))
            if t:
                w = [(a + b) % p for a, b in zip(w, cws[level][2])]
            if agg_id:
                w = [-x % p for x in w]
            out.append(list(w))
        return out


# ---------------------------------------------------------------- Poplar1

class RefPoplar1:
    ident = 6
    rounds = 2
    shares = 2
    nonce_size = 16
    key_size = 32

    def __init__(self, bits):
        self.bits = bits
        self.idpf = Idpf(2, bits)
        self.rand_size = 32 + 3 * 32

    def field(self, level):
        return self.idpf.field(level)

    def _stream(self, seed, usage, ctx, binder):
        return Stream(seed, dst_of(0, 6, usage, ctx), binder)

    def corr(self, seed, j, ctx, nonce):
        inner = self._stream(seed, 2, ctx, bytes([j]) + nonce).vec(
            P64, 3 * (self.bits - 1))
        leaf = self._stream(seed, 3, ctx, bytes([j]) + nonce).vec(P255, 3)
        return [inner[3 * i:3 * i + 3] for i in range(self.bits - 1)] + [leaf]

    def shard(self, ctx, alpha, nonce, rand, betas_hook=None, twist=None,
              corr_hook=None):
        need(len(nonce) == 16 and len(rand) == self.rand_size, 'sizes')
        need(len(alpha) == self.bits, 'length')
        cs = [rand[32:64], rand[64:96]]
        st = self._stream(rand[96:], 1, ctx, nonce)
        ks = st.vec(P64, self.bits - 1) + st.vec(P255, 1)
        betas = [[1, k] for k in ks]
        if betas_hook:
            betas = betas_hook(betas, ks)
        cws, keys = self.idpf.gen(alpha, betas, ctx, nonce, rand[:32], twist)
        off = [self.corr(cs[j], j, ctx, nonce) for j in (0, 1)]
        ab = [[], []]
        for lv in range(self.bits):
            p = self.field(lv)
            a, b, c = [(x + y) % p for x, y in zip(off[0][lv], off[1][lv])]
            k = ks[lv]
            A = (k - 2 * a) % p
            B = (a * a + b - a * k + c) % p
            if corr_hook:
                A, B = corr_hook(lv, A, B, p)
            c1 = st.vec(p, 2)
            ab[1].append(c1)
            ab[0].append([(A - c1[0]) % p, (B - c1[1]) % p])
        out = []
        for j in (0, 1):
            s = keys[j] + cs[j]
            for lv in range(self.bits):
                s += enc_vec(self.field(lv), ab[j][lv])
            out.append(s)
        return self.idpf.encode_public(cws), out

    # aggregation parameters
    def encode_param(self, level, prefixes):
        out = level.to_bytes(2, 'big') + len(prefixes).to_bytes(4, 'big')
        for pre in prefixes:
            n = (level + 1 + 7) // 8
            v = 0
            for b in pre:
                v = v * 2 + int(b)
            out += (v << (8 * n - level - 1)).to_bytes(n, 'big')
        return out

    def decode_param(self, data):
        need(len(data) >= 6, 'short')
        level = int.from_bytes(data[:2], 'big')
        cnt = int.from_bytes(data[2:6], 'big')
        n = (level + 1 + 7) // 8
        need(len(data) == 6 + n * cnt, 'length')
        out = []
        for i in range(cnt):
            v = int.from_bytes(data[6 + n * i:6 + n * (i + 1)], 'big')
            pad = 8 * n - level - 1
            need(v & ((1 << pad) - 1) == 0, 'padding')
            v >>= pad
            out.append(tuple(bool((v >> (level - k)) & 1)
                             for k in range(level + 1)))
        return level, tuple(out)

    def is_valid(self, param, previous):
        level, pre = param
        if any(not a < b for a, b in zip(pre, pre[1:])):
            return False
        if not previous:
            return True
        ll, lp = previous[-1]
        if level <= ll:
            return False
        lp = set(lp)
        return all(tuple(x[:ll + 1]) in lp for x in pre)

    # aggregator
    def verify_init(self, key, ctx, j, ap, nonce, pub, share):
        level, prefixes = self.decode_param(ap)
        need(level < self.bits, 'level')
        need(len(set(prefixes)) == len(prefixes), 'duplicate prefixes')
        cws = self.idpf.decode_public(pub)
        nb = 16 + 32 + (self.bits - 1) * 16 + 64
        need(len(share) == nb, 'share length')
        k, cseed = share[:16], share[16:48]
        inner = dec_vec(P64, share[48:nb - 64])
        leaf = dec_vec(P255, share[nb - 64:])
        p = self.field(level)
        vals = self.idpf.eval(j, cws, k, level, prefixes, ctx, nonce)
        a, b, c = self.corr(cseed, j, ctx, nonce)[level]
        AB = inner[2 * level:2 * level + 2] if level < self.bits - 1 else leaf
        rs = self._stream(key, 4, ctx,
                          nonce + level.to_bytes(2, 'big')).vec(
                              p, len(prefixes))
        for r, (d, au) in zip(rs, vals):
            a += d * r
            b += d * r * r
            c += au * r
        sk = [a % p, b % p, c % p]
        return (1, p, AB, j, [v[0] for v in vals]), enc_vec(p, sk)

    def shares_to_msg(self, ctx, ap, vshares):
        level, _ = self.decode_param(ap)
        p = self.field(level)
        need(len(vshares) == 2, 'two shares')
        v = [dec_vec(p, s) for s in vshares]
        need(len(v[0]) == len(v[1]) and len(v[0]) in (1, 3), 'sketch length')
        tot = [(x + y) % p for x, y in zip(*v)]
        if len(tot) == 3:
            return enc_vec(p, tot)
        need(tot == [0], 'sketch rejected')
        return b''

    def verify_next(self, ctx, state, msg):
        step, p, AB, j, out = state
        if step == 1:
            z = dec_vec(p, msg, 3)
            s = AB[0] * z[0] + AB[1]
            if j:
                s += z[0] * z[0] - z[1] - z[2]
            return 'cont', (2, p, AB, j, out), enc_vec(p, [s % p])
        need(msg == b'', 'unexpected message')
        return 'out', enc_vec(p, out)

    def field_for(self, ap):
        return self.field(self.decode_param(ap)[0])

    def agg_len(self, ap):
        return len(self.decode_param(ap)[1])

    def unshard(self, ap, shares, n):
        p = self.field_for(ap)
        k = self.agg_len(ap)
        tot = [0] * k
        for s in shares:
            tot = [(a + b) % p for a, b in zip(tot, dec_vec(p, s, k))]
        return tot


def ref_agg(ref, ap, out_shares):
    """Aggregate share (bytes) of output shares (bytes)."""
    p = ref.field_for(ap)
    tot = [0] * ref.agg_len(ap)
    for s in out_shares:
        tot = [(a + b) % p for a, b in zip(tot, dec_vec(p, s))]
    return enc_vec(p, tot)


# ---------------------------------------------------------------- ping-pong

def pp_encode(kind, *items):
    return bytes([kind]) + b''.join(
        len(i).to_bytes(4, 'big') + i for i in items)


def pp_decode(data):
    need(len(data) >= 1 and data[0] in (0, 1, 2), 'message type')
    n = {0: 1, 1: 2, 2: 1}[data[0]]
    o = 1
    items = []
    for _ in range(n):
        need(len(data) >= o + 4, 'short')
        ln = int.from_bytes(data[o:o + 4], 'big')
        o += 4
        need(len(data) >= o + ln, 'short')
        items.append(data[o:o + ln])
        o += ln
    need(o == len(data), 'trailing')
    return data[0], items
