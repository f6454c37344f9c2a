"""Adapter to the code under test: byte strings in, byte strings out.

Only the public interface is used: constructors, the `Vdaf`/`Daf` methods and
the ping-pong mixin.  States are opaque.
"""
import copy
import os
import pickle
import sys
import types

REPO = os.environ.get('VDAF_REPO', '/repo')
sys.dont_write_bytecode = True
POC = os.path.join(REPO, 'poc')
if POC not in sys.path:
    sys.path.insert(0, POC)

from .kernel import cooperative_locks  # noqa: E402

cooperative_locks()

from vdaf_poc import field as F  # noqa: E402
from vdaf_poc import flp_bbcggi19 as flp_mod  # noqa: E402
from vdaf_poc import vdaf_ping_pong as pp_mod  # noqa: E402
from vdaf_poc import vdaf_poplar1, vdaf_prio3  # noqa: E402
from vdaf_poc import vdaf as vdaf_mod  # noqa: E402
from vdaf_poc import daf as daf_mod  # noqa: E402
from vdaf_poc import xof as xof_mod  # noqa: E402
from vdaf_poc import idpf_bbcggi21 as idpf_mod  # noqa: E402

FIELDS = {2**64 - 2**32 + 1: F.Field64}


def field_of(p):
    for f in (F.Field64, F.Field96, F.Field128, F.Field255):
        if f.MODULUS == p:
            return f
    raise KeyError(p)


_pp = {}


def pp_class(cls):
    """The class combined with the ping-pong mixin."""
    k = _pp.get(cls)
    if k is None:
        k = types.new_class('PP' + cls.__name__, (cls, pp_mod.PingPong))
        k.__module__ = __name__
        globals()[k.__name__] = k
        _pp[cls] = k
    return k


_kept = []


def save(state):
    """Durable form of an opaque state."""
    try:
        return pickle.dumps(state)
    except Exception:
        # Not every representation of a state can be pickled; a private copy
        # serves the same purpose inside one run.
        _kept.append(copy.deepcopy(state))
        return b'kept:%d' % (len(_kept) - 1)


def load(data):
    if data.startswith(b'kept:'):
        return copy.deepcopy(_kept[int(data[5:])])
    return pickle.loads(data)


class Sut:
    """One instance of the code under test behind a bytes interface."""
    is_ref = False

    def __init__(self, vdaf):
        self.v = vdaf
        self.shares = vdaf.SHARES
        self.rounds = vdaf.ROUNDS
        self.nonce_size = vdaf.NONCE_SIZE
        self.rand_size = vdaf.RAND_SIZE
        self.key_size = vdaf.VERIFY_KEY_SIZE

    def shard(self, ctx, meas, nonce, rand):
        pub, shares = self.v.shard(ctx, meas, nonce, rand)
        return (self.v.encode_public_share(pub),
                [self.v.encode_input_share(s) for s in shares])

    def verify_init(self, key, ctx, j, ap, nonce, pub, share):
        v = self.v
        state, vs = v.verify_init(
            key, ctx, j, v.decode_agg_param(ap), nonce,
            v.decode_public_share(pub), v.decode_input_share(j, share))
        return state, v.encode_verifier_share(vs)

    def shares_to_msg(self, ctx, ap, state, vshares):
        v = self.v
        return v.encode_verifier_message(v.verifier_shares_to_message(
            ctx, v.decode_agg_param(ap),
            [v.decode_verifier_share(state, s) for s in vshares]))

    def verify_next(self, ctx, state, msg, last):
        v = self.v
        out = v.verify_next(ctx, state, v.decode_verifier_message(state, msg))
        if last:
            return v.encode_out_share(out)
        state, vs = out
        return state, v.encode_verifier_share(vs)

    def save(self, state):
        return save(state)

    def load(self, data):
        return load(data)

    # aggregation
    def agg_init(self, ap):
        return self.v.encode_agg_share(
            self.v.agg_init(self.v.decode_agg_param(ap)))

    def agg_update(self, ap, agg, out):
        v = self.v
        p = v.decode_agg_param(ap)
        return v.encode_agg_share(v.agg_update(
            p, v.decode_agg_share(p, agg), v.decode_out_share(p, out)))

    def merge(self, ap, aggs):
        v = self.v
        p = v.decode_agg_param(ap)
        return v.encode_agg_share(
            v.merge(p, [v.decode_agg_share(p, a) for a in aggs]))

    def unshard(self, ap, aggs, n):
        v = self.v
        p = v.decode_agg_param(ap)
        return v.unshard(p, [v.decode_agg_share(p, a) for a in aggs], n)


class RefImpl:
    """The reference behind the same interface."""
    is_ref = True

    def __init__(self, ref):
        self.r = ref
        self.shares, self.rounds = ref.shares, ref.rounds
        self.nonce_size, self.rand_size = ref.nonce_size, ref.rand_size
        self.key_size = ref.key_size

    def shard(self, ctx, meas, nonce, rand):
        return self.r.shard(ctx, meas, nonce, rand)

    def verify_init(self, key, ctx, j, ap, nonce, pub, share):
        return self.r.verify_init(key, ctx, j, ap, nonce, pub, share)

    def shares_to_msg(self, ctx, ap, state, vshares):
        return self.r.shares_to_msg(ctx, ap, vshares)

    def verify_next(self, ctx, state, msg, last):
        out = self.r.verify_next(ctx, state, msg)
        if last:
            if out[0] != 'out':
                from .ref import Reject
                raise Reject('expected output')
            return out[1]
        return out[1], out[2]

    def save(self, state):
        return pickle.dumps(state)

    def load(self, data):
        return pickle.loads(data)

    def agg_init(self, ap):
        from .ref import ref_agg
        return ref_agg(self.r, ap, [])

    def agg_update(self, ap, agg, out):
        from .ref import ref_agg
        return ref_agg(self.r, ap, [agg, out])

    def merge(self, ap, aggs):
        from .ref import ref_agg
        return ref_agg(self.r, ap, aggs)

    def unshard(self, ap, aggs, n):
        return self.r.unshard(ap, aggs, n)
