"""Shared pieces of the property workloads."""
from .. import cfg as C
from .. import deploy as D
from ..kernel import FaultPlan, Sim, check, h8

REAL = ['Prio3 (all variants)', 'Poplar1', 'FLP', 'IDPF', 'XOFs', 'fields',
        'ping-pong', 'message encodings']
STUB = ['network', 'disks', 'clocks', 'process crashes', 'randomness source',
        'client/aggregator/collector shells']


def fresh_nonces(ch, n, size=16):
    out = []
    for i in range(n):
        b = ch.blob(size, f'nonce{i}')
        while b in out:
            b = ch.fresh(size, f'nonce{i}/again')
        out.append(b)
    return out


def describe(log, cfg, ctx, extra=''):
    log.ev('cfg', cfg.kind, f'{cfg.args} ctx={len(ctx)}:{h8(ctx)} {extra}')
    log.probe('cfg:' + cfg.kind)
    if cfg.shares > 100:
        log.probe('many-aggregators')


def near(ch, b):
    """A different string, often very similar."""
    how = ch.draw(10)
    if how == 7:
        return b + ch.pick([b' ', b'\n', b'\t', b'\r', b'/', b'.'])
    if how == 8:
        return ch.pick([b' ', b'\0', b'\n', b'/']) + b
    if how == 9 and b.swapcase() != b:
        return ch.pick([x for x in (b.swapcase(), b.lower(), b.upper())
                        if x != b])
    if how == 0:
        return b + b'\0'
    if how == 1 and b:
        return b[:-1]
    if how == 2 and b:
        x = bytearray(b)
        k = ch.draw(8 * len(x))
        x[k // 8] ^= 1 << (k % 8)
        return bytes(x)
    if how == 3 and b:
        x = bytearray(b)
        x[-1] ^= 1
        return bytes(x)
    if how == 4 and b:
        x = bytearray(b)
        x[0] ^= 0x80
        return bytes(x)
    if how == 5 and b:
        return b[::-1]
    return ch.fresh(max(len(b), 1), 'near')


def near_same_size(ch, b):
    x = near(ch, b)
    x = (x + bytes(len(b)))[:len(b)]
    if x == b:
        x = bytes([b[0] ^ 1]) + b[1:]
    return x
