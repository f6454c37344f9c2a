"""One report through verification, step by step, outside the network."""
from .kernel import HarnessError, Violation
from . import ref as R


class Refused(Exception):
    def __init__(self, j, step, exc):
        super().__init__(f'aggregator {j} {step}: {exc!r:.120}')
        self.j, self.step, self.exc = j, step, exc


def guarded(j, step, fn, *args):
    try:
        return fn(*args)
    except (Violation, HarnessError, MemoryError):
        raise
    except Exception as e:
        raise Refused(j, step, e)


class Same:
    """Per-aggregator view in which all agree."""

    def __init__(self, x):
        self.x = x

    def __getitem__(self, j):
        return self.x


def per(x, n):
    return x if isinstance(x, (list, Same)) else Same(x)


def verify(impls, shares, keys, ctxs, aps, nonces, pubs, inputs, rounds,
           agg_ids=None, tamper=None, order=None, store=None):
    """Star topology, aggregator 0 combining.  Arguments that aggregators must
    agree on may be lists (one view per aggregator).  `tamper(kind, r, j, b)`
    may replace bytes in transit; `order(r, n)` gives the processing order;
    `store(impl, state)` passes states through storage.

    Returns the output shares or raises Refused."""
    n = shares
    impls, keys, ctxs = per(impls, n), per(keys, n), per(ctxs, n)
    aps, nonces, pubs = per(aps, n), per(nonces, n), per(pubs, n)
    ids = agg_ids or list(range(n))
    order = order or (lambda r, k: range(k))
    tamper = tamper or (lambda kind, r, j, b: b)
    store = store or (lambda impl, st: st)
    st, vs = [None] * n, [None] * n
    for j in order('init', n):
        pub = tamper('pub', 0, j, pubs[j])
        inp = tamper('input', 0, j, inputs[j])
        s, v = guarded(j, 'init', impls[j].verify_init, keys[j], ctxs[j],
                       ids[j], aps[j], nonces[j], pub, inp)
        st[j], vs[j] = store(impls[j], s), v
    outs = [None] * n
    for r in range(rounds):
        last = r + 1 == rounds
        got = tamper_all(tamper, 'vshares', r,
                         [tamper('vshare', r, j, vs[j]) for j in range(n)])
        msg = guarded(0, f'combine{r}', impls[0].shares_to_msg, ctxs[0],
                      aps[0], st[0], got)
        for j in order(r, n):
            m = tamper('msg', r, j, msg)
            res = guarded(j, f'next{r}', impls[j].verify_next, ctxs[j],
                          st[j], m, last)
            if last:
                outs[j] = res
            else:
                st[j], vs[j] = store(impls[j], res[0]), res[1]
    return outs


def tamper_all(tamper, kind, r, items):
    out = tamper(kind, r, None, items)
    return items if out is None else out


def add_shares(p, outs):
    tot = None
    for o in outs:
        v = R.dec_vec(p, o)
        tot = v if tot is None else [(a + b) % p for a, b in zip(tot, v)]
        if len(v) != len(tot):
            raise Violation('output-share-length')
    return tot


def pingpong(pp, keys, ctxs, aps, nonces, pubs, inputs, rounds, hook=None,
             store=None):
    """Drives two ping-pong parties.  Returns (leader state, helper state,
    number of messages)."""
    hook = hook or (lambda k, b: b)
    store = store or (lambda s: s)
    keys, ctxs, aps = per(keys, 2), per(ctxs, 2), per(aps, 2)
    nonces, pubs = per(nonces, 2), per(pubs, 2)
    n = 0
    ls = pp[0].ping_pong_leader_init(keys[0], ctxs[0], aps[0], nonces[0],
                                     pubs[0], inputs[0])
    hs = None
    if name(ls) == 'Rejected':
        return ls, hs, n
    out = hook(0, ls.outbound)
    n = 1
    ls = store(ls)
    hs = pp[1].ping_pong_helper_init(keys[1], ctxs[1], aps[1], nonces[1],
                                     pubs[1], inputs[1], out)
    turn = 'L'
    while n < rounds + 4:
        cur = hs if turn == 'L' else ls
        if name(cur) in ('Rejected', 'Finished'):
            break
        out = hook(n, cur.outbound)
        n += 1
        if turn == 'L':
            hs = store(hs)
            if name(ls) != 'Continued':
                break
            ls = pp[0].ping_pong_leader_continued(ctxs[0], aps[0], ls, out)
            turn = 'H'
        else:
            ls = store(ls)
            if name(hs) != 'Continued':
                break
            hs = pp[1].ping_pong_helper_continued(ctxs[1], aps[1], hs, out)
            turn = 'L'
    return ls, hs, n


def name(st):
    return type(st).__name__
