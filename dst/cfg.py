"""Configurations: variant, parameters, domain, plain aggregate."""
import itertools

from . import ref as R
from . import sut as S
from .sut import F, flp_mod, vdaf_poplar1, vdaf_prio3


class Cfg:
    """kind, args, shares; make() -> code under test, ref() -> reference."""
    poplar = False
    ident = None

    def key(self):
        return (self.kind, self.args)

    def desc(self):
        return f'{self.kind}{self.args}'

    def make(self):
        return self.cls()(*self.ctor_args())

    def make_pp(self):
        return S.pp_class(self.cls())(*self.ctor_args())

    def sut(self):
        return S.Sut(self.make())

    def refimpl(self):
        return S.RefImpl(self.ref())


# ------------------------------------------------- user-defined circuit

class MixedValid(flp_mod.Valid):
    """Exercises the circuit interface: two gadgets, chosen degree and call
    counts, optional joint randomness, a decoder that uses the batch size."""

    def __init__(self, field, na, nb, deg, use_jr, mean):
        self.field = field
        self.na, self.nb, self.deg = na, nb, deg
        self.use_jr, self.mean = use_jr, mean
        self.GADGETS = [flp_mod.Mul(), flp_mod.PolyEval(falling(deg), nb)]
        self.GADGET_CALLS = [na + 1, nb]
        self.MEAS_LEN = na + nb + 1
        self.JOINT_RAND_LEN = 3 if use_jr else 0
        self.OUTPUT_LEN = 3
        self.EVAL_OUTPUT_LEN = 2 if use_jr else na + nb + 1

    def encode(self, measurement):
        a, b = measurement
        return [self.field(x) for x in a] + [self.field(x) for x in b] + \
            [self.field(a[0] * b[0])]

    def eval(self, meas, joint_rand, num_shares):
        self.check_valid_eval(meas, joint_rand)
        f = self.field
        mul, poly = self.GADGETS
        a = meas[:self.na]
        b = meas[self.na:self.na + self.nb]
        c = meas[-1]
        ea = [mul.eval(f, [x, x]) - x for x in a]
        eb = [poly.eval(f, [x]) for x in b]
        ec = mul.eval(f, [a[0], b[0]]) - c
        if not self.use_jr:
            return ea + eb + [ec]
        out0 = joint_rand[1] * ec
        r = f(1)
        for x in ea:
            r = r * joint_rand[0]
            out0 += r * x
        out1 = f(0)
        r = f(1)
        for x in eb:
            r = r * joint_rand[2]
            out1 += r * x
        return [out0, out1]

    def truncate(self, meas):
        f = self.field
        s = f(0)
        for i in range(self.na):
            s += f(2**i) * meas[i]
        t = f(0)
        for x in meas[self.na:self.na + self.nb]:
            t += x
        return [s, t, meas[-1]]

    def decode(self, output, num_measurements):
        v = [x.int() for x in output]
        return [x // num_measurements for x in v] if self.mean else v


def falling(deg):
    """Coefficients of x(x-1)...(x-deg+1)."""
    p = [1]
    for k in range(deg):
        q = [0] * (len(p) + 1)
        for i, c in enumerate(p):
            q[i + 1] += c
            q[i] -= k * c
        p = q
    return p


class CMixed(R.Circuit):
    def __init__(self, p, na, nb, deg, use_jr):
        self.p, self.na, self.nb, self.use_jr = p, na, nb, use_jr
        self.deg = deg
        self.gadgets = [R.g_mul(), R.g_poly(falling(deg))]
        self.calls = [na + 1, nb]
        self.meas_len = na + nb + 1
        self.jr_len = 3 if use_jr else 0
        self.out_len = 3
        self.eval_len = 2 if use_jr else na + nb + 1

    def encode(self, m):
        a, b = m
        return list(a) + list(b) + [a[0] * b[0]]

    def eval(self, m, jr, shares, call):
        p = self.p
        a, b, c = m[:self.na], m[self.na:self.na + self.nb], m[-1]
        ea = [(call(0, [x, x]) - x) % p for x in a]
        eb = [call(1, [x]) for x in b]
        ec = (call(0, [a[0], b[0]]) - c) % p
        if not self.use_jr:
            return ea + eb + [ec]
        o0 = jr[1] * ec + sum(pow(jr[0], i + 1, p) * x
                              for i, x in enumerate(ea))
        o1 = sum(pow(jr[2], i + 1, p) * x for i, x in enumerate(eb))
        return [o0 % p, o1 % p]

    def truncate(self, m):
        p = self.p
        return [sum(2**i * x for i, x in enumerate(m[:self.na])) % p,
                sum(m[self.na:self.na + self.nb]) % p, m[-1]]


class Prio3Mixed(vdaf_prio3.Prio3):
    ID = 0xFFFF0001
    xof = S.xof_mod.XofTurboShake128
    VERIFY_KEY_SIZE = xof.SEED_SIZE
    test_vec_name = 'Prio3Mixed'

    def __init__(self, shares, field, proofs, na, nb, deg, use_jr, mean):
        flp = flp_mod.FlpBBCGGI19(
            MixedValid(field, na, nb, deg, use_jr, mean))
        super().__init__(shares, flp, proofs)


# ------------------------------------------------- Prio3

class P3(Cfg):
    def __init__(self, kind, shares, **kw):
        self.kind, self.shares = kind, shares
        self.__dict__.update(kw)
        self.args = tuple([('shares', shares)] + sorted(kw.items()))
        self.rounds = 1
        self.ident = {'count': 1, 'sum': 2, 'sumvec': 3, 'histogram': 4,
                      'multihot': 5, 'multiproof': 0xFFFFFFFF,
                      'mixed': 0xFFFF0001}[kind]

    def cls(self):
        return {'count': vdaf_prio3.Prio3Count,
                'sum': vdaf_prio3.Prio3Sum,
                'sumvec': vdaf_prio3.Prio3SumVec,
                'histogram': vdaf_prio3.Prio3Histogram,
                'multihot': vdaf_prio3.Prio3MultihotCountVec,
                'multiproof': vdaf_prio3.Prio3SumVecWithMultiproof,
                'mixed': Prio3Mixed}[self.kind]

    def ctor_args(self):
        k, s = self.kind, self.shares
        if k == 'count':
            return (s,)
        if k == 'sum':
            return (s, self.mx)
        if k == 'sumvec':
            return (s, self.length, self.mx, self.chunk)
        if k == 'histogram':
            return (s, self.length, self.chunk)
        if k == 'multihot':
            return (s, self.length, self.mx, self.chunk)
        if k == 'multiproof':
            return (s, S.field_of(self.p), self.proofs, self.length, self.mx,
                    self.chunk)
        return (s, S.field_of(self.p), self.proofs, self.na, self.nb,
                self.deg, self.use_jr, self.mean)

    def circuit(self):
        k = self.kind
        if k == 'count':
            return R.CCount()
        if k == 'sum':
            return R.CSum(self.mx)
        if k == 'sumvec':
            return R.CSumVec(self.length, self.mx, self.chunk)
        if k == 'histogram':
            return R.CHistogram(self.length, self.chunk)
        if k == 'multihot':
            return R.CMultihot(self.length, self.mx, self.chunk)
        if k == 'multiproof':
            return R.CSumVec(self.length, self.mx, self.chunk, self.p)
        return CMixed(self.p, self.na, self.nb, self.deg, self.use_jr)

    def ref(self):
        return R.RefPrio3(self.ident, self.circuit(), self.shares,
                          getattr(self, 'proofs', 1))

    # measurements
    def gen_meas(self, ch):
        k = self.kind
        if k == 'count':
            return ch.draw(2)
        if k == 'sum':
            return gen_int(ch, self.mx)
        if k in ('sumvec', 'multiproof'):
            mode = ch.draw(4)
            if mode == 0:
                return [0] * self.length
            if mode == 1:
                return [self.mx] * self.length
            return [gen_int(ch, self.mx) for _ in range(self.length)]
        if k == 'histogram':
            return gen_int(ch, self.length - 1) if self.length > 1 else 0
        if k == 'multihot':
            w = gen_int(ch, self.mx)
            on = set(ch.shuffle(range(self.length))[:w])
            return [i in on for i in range(self.length)]
        return ([ch.draw(2) for _ in range(self.na)],
                [ch.draw(self.deg) for _ in range(self.nb)])

    def contribution(self, m):
        """What the measurement adds to the aggregate, as plain integers."""
        k = self.kind
        if k in ('count', 'sum'):
            return [m]
        if k in ('sumvec', 'multiproof'):
            return list(m)
        if k == 'histogram':
            return [int(i == m) for i in range(self.length)]
        if k == 'multihot':
            return [int(x) for x in m]
        a, b = m
        return [sum(2**i * x for i, x in enumerate(a)), sum(b), a[0] * b[0]]

    def plain(self, ms):
        """Plain aggregate result of a non-empty batch."""
        n = self.out_len()
        tot = [0] * n
        for m in ms:
            tot = [a + b for a, b in zip(tot, self.contribution(m))]
        if self.kind == 'mixed' and self.mean:
            tot = [x // len(ms) for x in tot]
        return tot[0] if self.kind in ('count', 'sum') else tot

    def out_len(self):
        k = self.kind
        if k in ('count', 'sum'):
            return 1
        if k == 'mixed':
            return 3
        return self.length

    def modulus(self):
        if self.kind in ('count', 'sum'):
            return R.P64
        return getattr(self, 'p', R.P128)

    def max_batch(self):
        """Batches up to this size cannot overflow the field."""
        big = {'count': 1, 'histogram': 1, 'multihot': 1}.get(
            self.kind, None)
        if big is None:
            big = 2**self.na + self.nb * self.deg if self.kind == 'mixed' \
                else self.mx
        return (self.modulus() - 1) // big

    def weight(self):
        """Rough cost of one report (encoded length times aggregators)."""
        c = self.circuit()
        f = R.Flp(c)
        return (c.meas_len + f.proof_len * getattr(self, 'proofs', 1)
                + sum(g.arity * k for g, k in zip(c.gadgets, c.calls))) \
            * (1 + self.shares)

    def agg_params(self, ch):
        return b''


INTS = (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 100, 127, 128,
        129, 255, 256, 257, 1000, 2**15 - 1, 2**15, 2**16 - 1, 2**16, 2**16 + 1,
        2**20, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**40 + 3,
        2**48, R.P64 // 5, 2**62 - 1, 2**62, R.P64 // 3, 2**63 - 2,
        2**63 - 1)
WIDE = (2**63, 2**64 - 1, 2**64, 2**64 + 1, 2**80, 2**94, 2**95 - 1,
        2**126 - 1, 2**126, R.P128 // 3, 2**127 - 2, 2**127 - 1)


def gen_int(ch, mx):
    """An integer in [0, mx], biased to the edges of the encoding."""
    mode = ch.draw(6)
    if mode == 0:
        return 0
    if mode == 1:
        return mx
    if mode == 2:
        half = 1 << (mx.bit_length() - 1)
        return min(mx, max(0, half - 2 + ch.draw(4)))
    if mode == 3:
        return max(0, mx - ch.draw(4))
    if mode == 4:
        return min(mx, ch.draw(4))
    if mx < 2**32:
        return ch.draw(mx + 1)
    return (ch.draw(2**32) * 2**32 + ch.draw(2**32)) % (mx + 1)


PRIO3 = ('count', 'sum', 'sumvec', 'histogram', 'multihot', 'multiproof',
         'mixed')


def gen_shares(ch, big):
    opts = [(2, 50), (3, 18), (4, 8), (5, 6), (7, 4), (8, 3)]
    if big:
        opts += [(16, 1), (17, 1), (33, 1), (64, 1), (127, 1), (128, 1),
                 (129, 1), (200, 1), (254, 1), (255, 2)]
    return ch.weighted(opts)


def gen_prio3(ch, kinds=PRIO3, big=True, shares=None, cap=4000):
    """A Prio3 configuration; `cap` bounds the cost of one report."""
    kind = ch.pick(kinds)
    s = shares if shares is not None else gen_shares(ch, big)
    for attempt in range(8):
        c = _gen_prio3(ch, kind, s)
        if c.weight() <= cap:
            return c
    return P3('count', s) if kind == 'count' else _small(kind, s)


def _small(kind, s):
    if kind == 'sum':
        return P3('sum', s, mx=2)
    if kind == 'sumvec':
        return P3('sumvec', s, length=2, mx=2, chunk=2)
    if kind == 'histogram':
        return P3('histogram', s, length=3, chunk=2)
    if kind == 'multihot':
        return P3('multihot', s, length=3, mx=2, chunk=2)
    if kind == 'multiproof':
        return P3('multiproof', s, p=R.P64, proofs=2, length=2, mx=1, chunk=1)
    return P3('mixed', s, p=R.P64, proofs=1, na=1, nb=1, deg=2, use_jr=False,
              mean=False)


def gen_chunk(ch, n):
    mode = ch.draw(6)
    if mode == 0:
        return 1
    if mode == 1:
        return n
    if mode == 2:
        return n + ch.between(1, 3)
    if mode == 3:
        r = int(n**0.5)
        return max(1, r + ch.draw(3) - 1)
    return ch.between(1, n)


def gen_long(ch, kinds=('histogram', 'multihot', 'sumvec', 'multiproof'),
             shares=2):
    """Vectors of hundreds of elements, in few gadget calls."""
    kind = ch.pick(kinds)
    length = ch.pick([255, 256, 257, 300, 511, 512, 513, 600,
                      ch.between(200, 700)])
    if kind == 'histogram':
        return P3(kind, shares, length=length, chunk=ch.between(15, 40))
    if kind == 'multihot':
        return P3(kind, shares, length=length,
                  mx=ch.pick([1, 2, length, 255, 256, length - 1][:5]
                             if length > 256 else [1, 2, length]),
                  chunk=ch.between(15, 40))
    mx = ch.pick([1, 1, 2, 3])
    kw = dict(length=length, mx=mx, chunk=ch.between(20, 40))
    if kind == 'sumvec':
        return P3(kind, shares, **kw)
    return P3(kind, shares, p=ch.pick([R.P64, R.P128, R.P96]), proofs=2, **kw)


def gen_many_calls(ch, shares=2):
    """Circuits with hundreds of gadget calls (transforms of 512 points and
    more)."""
    n = ch.pick([255, 256, 257, 260, ch.between(129, 300)])
    chunk = ch.pick([1, 1, 2])
    if ch.draw(3) == 2:
        return P3('sumvec', shares, length=n, mx=1, chunk=chunk)
    return P3('histogram', shares, length=n * chunk - ch.draw(chunk),
              chunk=chunk)


def _gen_prio3(ch, kind, s):
    if kind == 'count':
        return P3('count', s)
    if kind == 'sum':
        return P3('sum', s, mx=gen_max(ch, 63))
    if kind in ('sumvec', 'multiproof'):
        length = ch.weighted([(ch.between(1, 4), 5), (ch.between(1, 12), 4),
                              (ch.between(10, 40), 1)])
        mx = gen_max(ch, 16 if length > 3 else 62)
        p = R.P128 if kind == 'sumvec' else ch.pick([R.P64, R.P128, R.P96])
        if length < 3 and ch.chance(150):
            wide = [x for x in WIDE if 2**x.bit_length() < p]
            mx = ch.pick(wide or [mx])
        chunk = gen_chunk(ch, length * mx.bit_length())
        if kind == 'sumvec':
            return P3('sumvec', s, length=length, mx=mx, chunk=chunk)
        proofs = ch.weighted([(1, 2), (2, 4), (3, 3), (4, 1), (5, 1), (7, 1),
                              (ch.pick([255, 127, 128, 130, 200]), 1)])
        if proofs > 100:
            length, mx, chunk = 1, ch.pick([1, 1, 2]), ch.pick([1, 2])
        return P3('multiproof', s, p=p, proofs=proofs, length=length, mx=mx,
                  chunk=chunk)
    if kind == 'histogram':
        length = ch.weighted([(ch.between(1, 6), 5), (ch.between(1, 20), 4),
                              (ch.between(20, 120), 1)])
        return P3('histogram', s, length=length, chunk=gen_chunk(ch, length))
    if kind == 'multihot':
        length = ch.weighted([(ch.between(1, 6), 5), (ch.between(1, 20), 4),
                              (ch.between(20, 60), 1)])
        mx = ch.weighted([(1, 2), (length, 2),
                          (ch.between(1, length), 4)])
        return P3('multihot', s, length=length, mx=mx,
                  chunk=gen_chunk(ch, length + mx.bit_length()))
    return P3('mixed', s, p=ch.pick([R.P64, R.P128, R.P96]),
              proofs=ch.weighted([(1, 4), (2, 2), (3, 1)]),
              na=ch.between(1, 8), nb=ch.between(1, 8),
              deg=ch.between(2, 5), use_jr=bool(ch.draw(2)),
              mean=bool(ch.draw(2)))


def gen_near(ch, cfg):
    """The same variant with one parameter changed a little."""
    step = ch.pick([1, -1])
    if cfg.poplar:
        return Pop(max(1, cfg.bits + step))
    kw = dict(cfg.args)
    shares = kw.pop('shares')
    k = ch.pick(['shares'] + [x for x in sorted(kw)
                              if x not in ('p', 'use_jr', 'mean')])
    if k == 'shares':
        return P3(cfg.kind, max(2, shares + step), **kw)
    kw[k] = max(2 if k == 'deg' else 1, kw[k] + step)
    if cfg.kind == 'multihot':
        kw['mx'] = min(kw['mx'], kw['length'])
    return P3(cfg.kind, shares, **kw)


def gen_max(ch, bits):
    ok = [x for x in INTS if x < 2**bits]
    if ch.draw(3):
        return ch.pick(ok)
    return 1 + ch.draw(2**min(bits, 31) - 1)


# ------------------------------------------------- Poplar1

def wide_prefixes(ch, level):
    """All prefixes of a level, or nearly all."""
    drop = {ch.draw(2**(level + 1)) for _ in range(ch.draw(3))}
    return tuple(t for i, t in enumerate(itertools.product(
        (False, True), repeat=level + 1)) if i not in drop or i == 0)


class Pop(Cfg):
    poplar = True
    kind = 'poplar1'
    ident = 6
    shares = 2
    rounds = 2

    def __init__(self, bits):
        self.bits = bits
        self.args = (('bits', bits),)

    def cls(self):
        return vdaf_poplar1.Poplar1

    def ctor_args(self):
        return (self.bits,)

    def ref(self):
        return R.RefPoplar1(self.bits)

    def gen_meas(self, ch):
        mode = ch.draw(5)
        if mode == 0:
            return (False,) * self.bits
        if mode == 1:
            return (True,) * self.bits
        if mode == 2:
            # shares a long prefix with the all-zero string
            k = ch.draw(self.bits)
            return tuple(i == k for i in range(self.bits))
        v = int.from_bytes(ch.fresh((self.bits + 7) // 8, 'alpha'), 'big')
        return tuple(bool((v >> i) & 1) for i in range(self.bits))

    def gen_level(self, ch):
        return ch.weighted([(0, 1), (self.bits - 1, 3),
                            (ch.draw(self.bits), 4),
                            (max(0, self.bits - 2), 1)])

    def gen_prefixes(self, ch, level, meas, limit=12, empty=0):
        """Sorted distinct prefixes biased to those of the measurements."""
        if ch.chance(empty):
            return ()
        if limit >= 12 and (3 <= level <= 6 or level == 8) and \
                ch.chance(60 if level < 8 else 15):
            return wide_prefixes(ch, level)
        out = set()
        for m in meas:
            if ch.chance(700):
                out.add(tuple(m[:level + 1]))
                if ch.chance(500):
                    sib = list(m[:level + 1])
                    sib[ch.draw(level + 1)] ^= True
                    out.add(tuple(sib))
        for _ in range(ch.draw(4)):
            v = ch.draw(2**32)
            out.add(tuple(bool((v >> (i % 32)) & 1)
                          for i in range(level + 1)))
        if not out:
            out.add((False,) * (level + 1))
        return tuple(sorted(out)[:limit])

    def param(self, level, prefixes):
        return self.ref().encode_param(level, prefixes)

    def contribution_at(self, m, prefixes):
        return [int(tuple(m[:len(p)]) == tuple(p)) for p in prefixes]

    def max_batch(self):
        return 2**31

    def weight(self):
        return 100 * self.bits


BITS = (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 24, 31, 32, 33)
BIG_BITS = (63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300)


def gen_poplar(ch, big=True, max_bits=400):
    if big and ch.chance(80):
        return Pop(ch.pick([b for b in BIG_BITS if b <= max_bits] or [8]))
    return Pop(ch.pick([b for b in BITS if b <= max_bits]))


def gen_ctx(ch):
    mode = ch.draw(12)
    if mode == 0:
        return b'ctx'
    if mode == 1:
        return b''
    if mode == 2:
        return bytes(ch.between(1, 8))
    if mode == 3:
        return ch.fresh(ch.pick([150, 159, 160, 161, 168, 200, 300]), 'ctx')
    if mode == 4:
        return ch.fresh(ch.pick([1000, 5000, 65000]), 'ctx') \
            if ch.chance(200) else b'a' * 255
    if mode == 5:
        return 'task/é'.encode() + bytes([ch.draw(256)])
    return ch.fresh(ch.between(1, 40), 'ctx')
