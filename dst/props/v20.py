"""An expanded stream is the same however it is read."""
from .. import ref as R
from .. import sut as S
from ..kernel import Tasks, Threads
from ..script import isolated
from .common import REAL, STUB, check, h8

RUNS = {'quick': 9000, 'thorough': 150000}
RULE = ('One decision per read (compared with the stream read in one piece '
        'by another process) and one per pair of different streams.')
ASSUMPTIONS = ['Accidental agreement of the first 24 bytes of different '
               'streams is neglected.']
REAL = ['XofTurboShake128', 'XofFixedKeyAes128', 'fields']
MUST_REACH = ['turboshake', 'aes', 'bytes', 'vector', 'rejected-words',
              'derive-seed', 'expand', 'interleaved', 'threads', 'recreated',
              'over-block', 'at-block-edge', 'long-read', 'pair-seed',
              'pair-tag', 'pair-binder', 'pair-boundary', 'empty-binder',
              'preempt', 'long-stream', 'very-long-stream']


def make_field(p, size):
    return type(f'F{p}', (S.F.Field,), {'MODULUS': p, 'ENCODED_SIZE': size})


TINY = [(5, 1), (13, 1), (17, 1), (251, 1), (257, 2), (12289, 2), (40961, 2),
        (65537, 3), (2**31 - 1, 4), (2**61 - 1, 8), (2**64 - 59, 8),
        (2**32 + 15, 5), (2**107 - 1, 14), (2**127 - 1, 16)]


def field(ch):
    if ch.draw(2):
        p, size = ch.pick(TINY)
        return make_field(p, size)
    return ch.pick([S.F.Field64, S.F.Field96, S.F.Field128, S.F.Field255])


def words(stream, pos, fld, n):
    """(values, bytes used) of the first n in-range words from `pos`."""
    mask = (1 << (fld.MODULUS - 1).bit_length()) - 1
    out, k, size = [], pos, fld.ENCODED_SIZE
    while len(out) < n:
        w = stream[k:k + size]
        if len(w) < size:
            return None, k - pos
        k += size
        x = int.from_bytes(w, 'little') & mask
        if x < fld.MODULUS:
            out.append(x)
    return out, k - pos


CLASSES = {'turboshake': S.xof_mod.XofTurboShake128,
           'aes': S.xof_mod.XofFixedKeyAes128}


def whole(kind, seed, dst, binder, n):
    return CLASSES[kind](seed, dst, binder).next(n)


def defined(kind, seed, dst, binder, n):
    """The stream as the document defines it."""
    return {'turboshake': R.Stream, 'aes': R.AesStream}[kind](
        seed, dst, binder).read(n)


def length(ch, log):
    if ch.chance(4):
        log.probe('very-long-stream')
        return ch.pick([66000, 70000, 132000, 1049000, 1048600, 263000])
    if ch.chance(60):
        log.probe('long-stream')
        return ch.pick([4000, 4100, 4113, 5500, 8200, 12000])
    return 1500 if ch.chance(200) else 400


def params(ch):
    kind = ch.pick(['turboshake', 'aes'])
    size = CLASSES[kind].SEED_SIZE
    return [kind, ch.blob(size, 'seed'),
            ch.blob(ch.pick([0, 1, 8, 8, 20, 100, 200, 300])
                    if not ch.chance(12) else
                    ch.pick([255, 256, 4096, 32767, 32768, 40000, 65500]),
                    'dst'),
            ch.blob(ch.pick([0, 0, 1, 2, 16, 17, 64, 170, 400])
                    if not ch.chance(12) else
                    ch.pick([4096, 65535, 65536, 70000, 140000, 300000,
                             1048575, 1048577, 1200000]), 'binder')]


def vary(ch, log, p):
    """A different stream, as similar as possible."""
    kind, seed, dst, binder = p
    how = ch.draw(4)
    if how == 0:
        k = ch.draw(8 * len(seed))
        s = bytearray(seed)
        s[k // 8] ^= 1 << (k % 8)
        log.probe('pair-seed')
        return [kind, bytes(s), dst, binder]
    if how == 1:
        log.probe('pair-tag')
        return [kind, seed, ch.pick([dst + b'\0', dst[:-1] or b'x',
                                     bytes([(dst + b'\0')[0] ^ 1]) +
                                     dst[1:]]), binder]
    if how == 2:
        log.probe('pair-binder')
        return [kind, seed, dst, ch.pick([binder + b'\0', binder[:-1] or b'y',
                                          binder[:-1] +
                                          bytes([(b'\0' + binder)[-1] ^ 1])])]
    # the same bytes, split differently
    if binder:
        log.probe('pair-boundary')
        if kind == 'aes':
            return [kind, seed, dst + binder[:1], binder[1:]]
        return [kind, binder[:32].ljust(32, b'\0'), dst, seed] \
            if ch.draw(2) and len(binder) == 32 else \
            [kind, seed, dst + binder[:1], binder[1:]]
    return [kind, seed, dst, binder + b'z']


def chunk(ch, log, kind, pos, left):
    """A read length biased to the block sizes."""
    block = 16 if kind == 'aes' else 168
    how = ch.draw(6)
    if how == 0:
        k = 1
    elif how == 1:
        k = ch.between(1, 40)
    elif how == 2:
        k = block - pos % block         # exactly to the edge
        log.probe('at-block-edge')
    elif how == 3:
        k = block - pos % block + ch.draw(3) - 1
    elif how == 4:
        k = ch.pick([16, 32, 168, 336, 15, 17, 167, 169])
    else:
        k = ch.between(1, max(700, left if left > 3000 else 0))
        if k > 300:
            log.probe('long-read')
    k = max(1, min(k, left))
    if pos // block != (pos + k) // block:
        log.probe('over-block')
    return k


def reader(ch, log, p, stream):
    """Generator: reads the stream in pieces, by bytes or field elements."""
    kind = p[0]
    what = f'{kind} dst={len(p[2])} binder={len(p[3])}'
    x = CLASSES[kind](*p[1:])
    pos, n = 0, 0
    limit = len(stream)
    yield 'open'
    while pos < limit and n < 14:
        n += 1
        how = ch.draw(8)
        if how < 4:
            k = chunk(ch, log, kind, pos, limit - pos)
            got = x.next(k)
            check(got == stream[pos:pos + k], 'bytes-differ',
                  lambda: f'{what} at {pos} length {k}')
            pos += k
            log.probe('bytes')
        elif how < 6:
            fld = field(ch)
            k = ch.between(1, 8)
            want, used = words(stream, pos, fld, k)
            if want is None:
                break
            got = x.next_vec(fld, k)
            check([e.int() for e in got] == want, 'elements-differ',
                  lambda: f'{what} at {pos}: {k} of {fld.__name__}')
            check(all(isinstance(e, fld) for e in got), 'wrong-field', what)
            if used > k * fld.ENCODED_SIZE:
                log.probe('rejected-words')
            pos += used
            log.probe('vector')
        elif how == 6:
            # unrelated derivations from the same input
            c = CLASSES[kind]
            seed = c.derive_seed(*p[1:])
            check(seed == stream[:c.SEED_SIZE], 'derived-seed-differs', what)
            fld = field(ch)
            k = ch.between(1, 5)
            want, _ = words(stream, 0, fld, k)
            if want is not None:
                got = c.expand_into_vec(fld, *p[1:], k)
                check([e.int() for e in got] == want, 'elements-differ',
                      lambda: f'{what} expand {k} of {fld.__name__}')
            log.probe('derive-seed')
            log.probe('expand')
        else:
            # the reader restarts and skips what it already had
            log.fault('recreated')
            x = CLASSES[kind](*p[1:])
            if pos:
                got = x.next(pos)
                check(got == stream[:pos], 'bytes-differ',
                      f'{what} re-read {pos}')
        log.ok()
        yield f'{kind}@{pos}'


def drain(gen):
    for _ in gen:
        pass


def run(ch, log):
    base = params(ch)
    ps = [base]
    for _ in range(ch.draw(4)):
        how = ch.draw(3)
        ps.append(list(base) if how == 0 else
                  vary(ch, log, ch.pick(ps)) if how == 1 else params(ch))
    for p in ps:
        log.probe(p[0])
        if not p[3]:
            log.probe('empty-binder')
    log.ev('cfg', 'streams', f'{len(ps)} {[p[0] for p in ps]}')
    # each stream once in one piece, in a process that does nothing else
    sizes = [length(ch, log) for _ in ps]
    streams = [isolated(whole, *p, n) for p, n in zip(ps, sizes)]
    for p, s, n in zip(ps, streams, sizes):
        log.ev('stream', h8(s))
        check(s == defined(*p, n), 'not-the-defined-stream',
              lambda: f'{p[0]} dst={len(p[2])} binder={len(p[3])} '
                      f'length {n}')
        log.ok()
    for i in range(len(ps)):
        for k in range(i):
            if ps[i] != ps[k] and ps[i][0] == ps[k][0]:
                check(streams[i][:24] != streams[k][:24], 'streams-agree',
                      f'{ps[i][0]}: {ps[i][1:]} / {ps[k][1:]}'[:300])
                log.ok()
            elif ps[i] == ps[k]:
                m = min(len(streams[i]), len(streams[k]))
                check(streams[i][:m] == streams[k][:m],
                      'length-changes-stream', ps[i][0])
                log.ok()
    if len(ps) > 1 and ch.chance(150):
        log.probe('threads')
        # The choices of a reader are drawn while it holds the baton.
        res = Threads(ch, log, S.POC, most=300).run(
            [lambda p=p, s=s: drain(reader(ch, log, p, s))
             for p, s in zip(ps, streams)])
        for r in res:
            if r[0] == 'exc':
                raise r[1]
        return
    if len(ps) > 1:
        log.probe('interleaved')
    tasks = Tasks(ch, log)
    for i, (p, s) in enumerate(zip(ps, streams)):
        tasks.add(f'x{i}', reader(ch, log, p, s))
    tasks.run()
