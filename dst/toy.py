"""A small two-party function with any number of rounds.

Every message is bound to key, context, nonce, aggregation parameter, round
and sender, decoding depends on the round of the state, and the order of
verifier shares matters, so that any slip in the caller is noticed.  What it
raises on bad input varies.  It has no cryptographic meaning.
"""
import hashlib

from . import sut as S
from .cfg import Cfg

M = 2**61 - 1
VALUE = 8


class OddError(Exception):
    pass


RAISES = (ValueError, KeyError, AssertionError, ZeroDivisionError, OddError,
          IndexError, OverflowError, RuntimeError, TypeError, OSError,
          NotImplementedError, StopIteration, RecursionError, MemoryError)


def refuse(tag):
    raise RAISES[hashlib.sha256(tag.encode()).digest()[0] % len(RAISES)](tag)


def H(*parts):
    h = hashlib.sha256()
    for p in parts:
        p = p if isinstance(p, bytes) else repr(p).encode()
        h.update(len(p).to_bytes(4, 'big') + p)
    return h.digest()


class Toy(S.vdaf_mod.Vdaf):
    ID = 0xFFFF0F0F
    SHARES = 2
    VERIFY_KEY_SIZE = 16
    NONCE_SIZE = 16
    RAND_SIZE = 8
    test_vec_name = 'Toy'

    def __init__(self, rounds, pad):
        self.ROUNDS = rounds
        self.pad = pad      # length of filler in shares and messages

    # client
    def shard(self, ctx, measurement, nonce, rand):
        r = int.from_bytes(rand, 'big') % M
        tag = H('pub', ctx, nonce)[:8]
        return tag, [((measurement - r) % M, H('in', 0, ctx, nonce)),
                     (r, H('in', 1, ctx, nonce))]

    def is_valid(self, agg_param, previous_agg_params):
        return True

    # aggregator
    def _share(self, st, j):
        key, ctx, ap, nonce, rnd = st[:5]
        return (rnd, j, H('vs', key, ctx, ap, nonce, rnd, j))

    def _msg(self, ctx, ap, shares):
        return (shares[0][0], H('msg', ctx, ap, shares[0][2], shares[1][2]))

    def verify_init(self, verify_key, ctx, agg_id, agg_param, nonce,
                    public_share, input_share):
        if public_share != H('pub', ctx, nonce)[:8]:
            refuse('public share')
        if input_share[1] != H('in', agg_id, ctx, nonce):
            refuse('input share')
        st = (verify_key, ctx, agg_param, nonce, 0, agg_id, input_share[0])
        return st, self._share(st, agg_id)

    def verifier_shares_to_message(self, ctx, agg_param, verifier_shares):
        if len(verifier_shares) != 2:
            refuse('number of verifier shares')
        a, b = verifier_shares
        if a[1] != 0 or b[1] != 1:
            refuse('order of verifier shares')
        if a[0] != b[0]:
            refuse('rounds differ')
        return self._msg(ctx, agg_param, [a, b])

    def verify_next(self, ctx, verify_state, verifier_message):
        key, vctx, ap, nonce, rnd, j, val = verify_state
        if ctx != vctx:
            refuse('context')
        want = self._msg(ctx, ap, [self._share(verify_state, 0),
                                   self._share(verify_state, 1)])
        if verifier_message != want:
            refuse(f'message of round {verifier_message[0]}')
        if rnd + 1 == self.ROUNDS:
            return [val]
        st = (key, vctx, ap, nonce, rnd + 1, j, val)
        return st, self._share(st, j)

    # aggregation
    def agg_init(self, agg_param):
        return [0]

    def agg_update(self, agg_param, agg_share, out_share):
        return [(agg_share[0] + out_share[0]) % M]

    def merge(self, agg_param, agg_shares):
        return [sum(a[0] for a in agg_shares) % M]

    def unshard(self, agg_param, agg_shares, num_measurements):
        return sum(a[0] for a in agg_shares) % M

    # encodings
    def encode_agg_param(self, agg_param):
        return agg_param.to_bytes(4, 'big') if isinstance(agg_param, int) \
            else agg_param

    def decode_agg_param(self, encoded):
        if len(encoded) % 7 == 5:
            refuse('aggregation parameter')
        return int.from_bytes(encoded, 'big') if len(encoded) == 4 \
            else encoded

    def encode_input_share(self, input_share):
        return input_share[0].to_bytes(8, 'big') + input_share[1]

    def decode_input_share(self, agg_id, encoded):
        if len(encoded) != 40:
            refuse('input share length')
        return int.from_bytes(encoded[:8], 'big'), encoded[8:]

    def encode_public_share(self, public_share):
        return public_share

    def decode_public_share(self, encoded):
        if len(encoded) != 8:
            refuse('public share length')
        return encoded

    def encode_verifier_share(self, verifier_share):
        rnd, j, tag = verifier_share
        return rnd.to_bytes(2, 'big') + bytes([j]) + tag + bytes(self.pad * (rnd + 1))

    def decode_verifier_share(self, verify_state, encoded):
        rnd = verify_state[4]
        if len(encoded) != 35 + self.pad * (rnd + 1) or any(encoded[35:]):
            refuse(f'verifier share length {rnd}')
        got = int.from_bytes(encoded[:2], 'big')
        if got != rnd:
            refuse(f'verifier share of round {got} in {rnd}')
        return got, encoded[2], encoded[3:35]

    def encode_verifier_message(self, verifier_message):
        return verifier_message[0].to_bytes(2, 'big') + \
            verifier_message[1] + bytes(self.pad if self.pad > 3 else 0)

    def decode_verifier_message(self, verify_state, encoded):
        rnd = verify_state[4]
        if len(encoded) != 34 + (self.pad if self.pad > 3 else 0) or \
                any(encoded[34:]):
            refuse('message length')
        got = int.from_bytes(encoded[:2], 'big')
        if got != rnd:
            refuse(f'message of round {got} in {rnd}')
        return got, encoded[2:34]

    def encode_out_share(self, out_share):
        return out_share[0].to_bytes(8, 'big')

    def decode_out_share(self, agg_param, encoded):
        return [int.from_bytes(encoded, 'big')]

    encode_agg_share = encode_out_share
    decode_agg_share = decode_out_share


def gen_rounds(ch, usual=7, many=60):
    """Mostly few rounds, at times around a power of two."""
    if not ch.chance(many):
        return ch.between(1, usual)
    if ch.chance(400):
        return ch.pick([64, 65, 100, 127, 128, 129, 255, 256, 257, 258, 300])
    return ch.pick([8, 9, 10, 15, 16, 17, 18, 20, 31, 32, 33, 34, 50])


def gen_pad(ch, rounds, long=30):
    """Length of the filler; at times the messages are long."""
    if rounds > 4 or not ch.chance(long):
        return ch.draw(4)
    return ch.pick([220, 221, 222, 250, 256, 65500, 65501, 65502, 65530,
                    65536, 70000, 140000])


def gen_param(ch):
    """An aggregation parameter, of four bytes or of any other length."""
    n = ch.weighted([(4, 3), (ch.draw(5), 2),
                     (ch.pick([6, 8, 16, 31, 32, 34, 64, 255, 256, 258]), 1),
                     (65535 + 7 * ch.draw(2), 1)])
    return ch.blob(n, 'param') if n else b''


class ToyCfg(Cfg):
    kind = 'toy'
    shares = 2
    poplar = False

    def __init__(self, rounds, pad):
        self.rounds, self.pad = rounds, pad
        self.args = (('rounds', rounds), ('pad', pad))

    def cls(self):
        return Toy

    def ctor_args(self):
        return (self.rounds, self.pad)

    def gen_meas(self, ch):
        return ch.draw(1000)

    def weight(self):
        return 10


# ---------------------------------------------------------------- reference

class RefPP:
    """Ping-pong written from the document, over the bytes interface."""

    def __init__(self, impl):
        self.impl = impl
        self.rounds = impl.rounds

    def leader_init(self, key, ctx, ap, nonce, pub, share):
        try:
            st, vs = self.impl.verify_init(key, ctx, 0, ap, nonce, pub, share)
            return ('Continued', st, 0, pp_enc(0, vs))
        except Exception:
            return ('Rejected',)

    def helper_init(self, key, ctx, ap, nonce, pub, share, inbound):
        try:
            st, vs = self.impl.verify_init(key, ctx, 1, ap, nonce, pub, share)
            t, items = pp_dec(inbound)
            if t != 0:
                return ('Rejected',)
            return self._transition(ctx, ap, [items[0], vs], st, st, 0)
        except Exception:
            return ('Rejected',)

    def _transition(self, ctx, ap, shares, st, _, r):
        msg = self.impl.shares_to_msg(ctx, ap, st, shares)
        last = r + 1 == self.rounds
        out = self.impl.verify_next(ctx, st, msg, last)
        if last:
            return ('FinishedWithOutbound', out, pp_enc(2, msg))
        return ('Continued', out[0], r + 1, pp_enc(1, msg, out[1]))

    def continued(self, leader, ctx, ap, state, inbound):
        try:
            _, st, r, _ = state
            t, items = pp_dec(inbound)
            last = r + 1 == self.rounds
            if t != (2 if last else 1):
                return ('Rejected',)
            out = self.impl.verify_next(ctx, st, items[0], last)
            if last:
                return ('Finished', out)
            st, vs = out
            shares = [vs, items[1]] if leader else [items[1], vs]
            return self._transition(ctx, ap, shares, st, st, r + 1)
        except Exception:
            return ('Rejected',)


class PPState:
    """A reference ping-pong state that looks like the real one."""

    def __init__(self, t):
        self.t = t
        if t[0] in ('Continued', 'FinishedWithOutbound'):
            self.outbound = t[-1]
        if t[0] in ('Finished', 'FinishedWithOutbound'):
            self.out_share = t[1]


class Continued(PPState):
    pass


class Finished(PPState):
    pass


class FinishedWithOutbound(PPState):
    pass


class Rejected(PPState):
    pass


class RefPPNode:
    """The reference behind the names of the ping-pong interface."""
    is_ref = True

    def __init__(self, impl):
        self.rp = RefPP(impl)

    def _wrap(self, t):
        return {'Continued': Continued, 'Finished': Finished,
                'FinishedWithOutbound': FinishedWithOutbound,
                'Rejected': Rejected}[t[0]](t)

    def ping_pong_leader_init(self, *args):
        return self._wrap(self.rp.leader_init(*args))

    def ping_pong_helper_init(self, *args):
        return self._wrap(self.rp.helper_init(*args))

    def ping_pong_leader_continued(self, ctx, ap, state, inbound):
        return self._wrap(self.rp.continued(True, ctx, ap, state.t, inbound))

    def ping_pong_helper_continued(self, ctx, ap, state, inbound):
        return self._wrap(self.rp.continued(False, ctx, ap, state.t, inbound))

    def encode_out_share(self, out):
        return out


def pp_enc(t, *items):
    from .ref import pp_encode
    return pp_encode(t, *items)


def pp_dec(b):
    from .ref import pp_decode
    return pp_decode(b)


def exchange(rp, key, ctx, ap, nonce, pub, inputs):
    """Honest run of the reference: (states by step, messages)."""
    ls = rp.leader_init(key, ctx, ap, nonce, pub, inputs[0])
    states, msgs = [ls], []
    cur = ls
    hs = None
    while cur[0] in ('Continued', 'FinishedWithOutbound'):
        msgs.append(cur[-1])
        k = len(msgs)
        if k == 1:
            hs = cur = rp.helper_init(key, ctx, ap, nonce, pub, inputs[1],
                                      msgs[0])
        elif k % 2 == 0:
            ls = cur = rp.continued(True, ctx, ap, ls, msgs[-1])
        else:
            hs = cur = rp.continued(False, ctx, ap, hs, msgs[-1])
        states.append(cur)
        if len(msgs) > rp.rounds + 3:
            break
    return states, msgs
