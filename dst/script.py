"""Recorded protocol steps: executed once, re-executed anywhere.

A record is (label, op, args, result) with concrete byte strings, so that it
can be shipped to another process.  States travel in their durable form.
"""
import os
import pickle
import sys

from . import sut as S
from .kernel import HarnessError, Violation

FAIL = ('fail',)


def isolated(fn, *args):
    """Run in a forked process that has done nothing else."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                data = pickle.dumps(('ok', fn(*args)))
            except Violation as e:
                data = pickle.dumps(('violation', e.kind, e.detail))
            except BaseException as e:
                import traceback
                fr = [f for f in traceback.extract_tb(e.__traceback__)
                      if f.filename.startswith(S.REPO + os.sep)]
                if fr:
                    data = pickle.dumps((
                        'violation', f'exception/{type(e).__name__}',
                        f'{e!r:.300} in {fr[-1].name}'))
                else:
                    data = pickle.dumps(('error', traceback.format_exc()))
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise HarnessError('isolated process died')
    res = pickle.loads(data)
    if res[0] == 'ok':
        return res[1]
    if res[0] == 'violation':
        raise Violation(res[1], res[2])
    raise HarnessError(res[1])


class Machine:
    """Executes steps on (possibly shared) objects of one configuration."""

    def __init__(self, cfg, keep=False):
        self.cfg = cfg
        self.kept = {} if keep else None    # states that stay in memory
        self.impl = cfg.sut()
        self.pp = cfg.make_pp() if cfg.shares == 2 else None

    def state(self, load, blob):
        if self.kept is None:
            return load(blob)
        if blob not in self.kept:
            self.kept[blob] = load(blob)
        return self.kept[blob]

    def execute(self, op, args):
        """Result with state in durable form, or FAIL."""
        try:
            return self._execute(op, args)
        except (Violation, HarnessError, MemoryError):
            raise
        except Exception:
            return FAIL

    def _execute(self, op, args):
        im = self.impl
        if op == 'shard':
            return im.shard(*args)
        if op == 'init':
            st, vs = im.verify_init(*args)
            return vs, im.save(st)
        if op == 'combine':
            ctx, ap, blob, vshares = args
            return im.shares_to_msg(ctx, ap, self.state(im.load, blob),
                                    vshares)
        if op == 'next':
            ctx, blob, msg, last = args
            out = im.verify_next(ctx, self.state(im.load, blob), msg, last)
            return out if last else (out[1], im.save(out[0]))
        if op in ('agg_init', 'agg_update', 'merge', 'unshard'):
            return getattr(im, op)(*args)
        if op == 'pp_li':
            return self._pp(self.pp.ping_pong_leader_init(*args))
        if op == 'pp_hi':
            return self._pp(self.pp.ping_pong_helper_init(*args))
        ctx, ap, blob, inbound = args
        fn = self.pp.ping_pong_leader_continued if op == 'pp_lc' else \
            self.pp.ping_pong_helper_continued
        return self._pp(fn(ctx, ap, self.state(S.load, blob), inbound))

    def _pp(self, st):
        n = type(st).__name__
        out = self.pp.encode_out_share(st.out_share) \
            if n in ('Finished', 'FinishedWithOutbound') else None
        return n, getattr(st, 'outbound', None), out, S.save(st)


def visible(op, res):
    """The part of a result that has to be identical."""
    if res == FAIL:
        return res
    if op == 'init':
        return res[0]
    if op == 'next' and isinstance(res, tuple):
        return res[0]
    if op.startswith('pp_'):
        return res[:3]
    return res


class Report:
    """Inputs of one report's life."""

    def __init__(self, cfg, ctx, key, nonce, meas, rand, ap, damage=None,
                 pingpong=False):
        self.cfg, self.ctx, self.key, self.nonce = cfg, ctx, key, nonce
        self.meas, self.rand, self.ap = meas, rand, ap
        self.damage = damage    # (kind, r, j, bit position)
        self.pingpong = pingpong


def flip(b, k):
    if not b:
        return b'\1'
    b = bytearray(b)
    k %= 8 * len(b)
    b[k // 8] ^= 1 << (k % 8)
    return bytes(b)


def play(rep, machine=None):
    """Generator: executes the life of a report step by step, yielding each
    record."""
    m = machine or Machine(rep.cfg)
    n, rounds = rep.cfg.shares, rep.cfg.rounds

    def hit(kind, r, j, b):
        d = rep.damage
        if d and d[:3] == (kind, r, j):
            return flip(b, d[3])
        return b

    def do(label, op, *args):
        return (label, op, args, m.execute(op, args))
    rec = do('shard', 'shard', rep.ctx, rep.meas, rep.nonce, rep.rand)
    yield rec
    if rec[3] == FAIL:
        return
    pub, inputs = rec[3]
    inputs = [hit('input', 0, j, b) for j, b in enumerate(inputs)]
    outs = []
    if rep.pingpong:
        rec = do('pp0', 'pp_li', rep.key, rep.ctx, rep.ap, rep.nonce,
                 hit('pub', 0, 0, pub), inputs[0])
        yield rec
        cur, blobs, k = rec[3], [None, None], 0
        blobs[0] = cur[3]
        fin = {}
        while cur != FAIL and cur[1] is not None:
            msg = hit('msg', k, 0, cur[1])
            k += 1
            who = k % 2
            if k == 1:
                rec = do('pp1', 'pp_hi', rep.key, rep.ctx, rep.ap, rep.nonce,
                         hit('pub', 0, 1, pub), inputs[1], msg)
            else:
                rec = do(f'pp{k}', 'pp_lc' if who == 0 else 'pp_hc', rep.ctx,
                         rep.ap, blobs[who], msg)
            yield rec
            cur = rec[3]
            if cur != FAIL:
                blobs[who] = cur[3]
                if cur[2] is not None:
                    fin[who] = cur[2]
            if k > rounds + 2:
                break
        if len(fin) < 2:
            return
        outs = [fin[0], fin[1]]
    else:
        blobs, vs = [None] * n, [None] * n
        for j in range(n):
            rec = do(f'init{j}', 'init', rep.key, rep.ctx, j, rep.ap,
                     rep.nonce, hit('pub', 0, j, pub), inputs[j])
            yield rec
            if rec[3] != FAIL:
                vs[j], blobs[j] = rec[3]
        if any(b is None for b in blobs):
            return
        for r in range(rounds):
            last = r + 1 == rounds
            rec = do(f'combine{r}', 'combine', rep.ctx, rep.ap, blobs[0],
                     tuple(hit('vshare', r, j, b) for j, b in enumerate(vs)))
            yield rec
            if rec[3] == FAIL:
                return
            msg = rec[3]
            res = []
            for j in range(n):
                rec = do(f'next{r}.{j}', 'next', rep.ctx, blobs[j],
                         hit('msg', r, j, msg), last)
                yield rec
                res.append(rec[3])
            if FAIL in res:
                return
            if last:
                outs = res
            else:
                vs = [x[0] for x in res]
                blobs = [x[1] for x in res]
    aggs = []
    for j in range(n):
        rec = do(f'agg_init{j}', 'agg_init', rep.ap)
        yield rec
        rec = do(f'agg_update{j}', 'agg_update', rep.ap, rec[3], outs[j])
        yield rec
        rec2 = do(f'merge{j}', 'merge', rep.ap, (rec[3], rec[3]))
        yield rec2
        aggs.append(rec2[3])
    if FAIL not in aggs:
        yield do('unshard', 'unshard', rep.ap, tuple(aggs), 2)


def play_all(rep):
    return list(play(rep))


def rerun(items):
    """items: [(cfg, op, args)] -> visible results."""
    ms = {}
    out = []
    for cfg, op, args in items:
        k = cfg.key()
        if k not in ms:
            ms[k] = Machine(cfg)
        out.append(visible(op, ms[k].execute(op, args)))
    return out


def other_interpreter(items, hashseed):
    """The same steps in a freshly started interpreter."""
    import subprocess
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    p = subprocess.run(
        [sys.executable, '-m', 'dst.script', str(hashseed)], cwd=here,
        env=env, input=pickle.dumps(items), stdout=subprocess.PIPE,
        stderr=subprocess.PIPE)
    if p.returncode:
        raise HarnessError(p.stderr.decode()[-2000:])
    return pickle.loads(p.stdout)


if __name__ == '__main__':
    from dst.script import rerun as _rerun
    from dst.runner import seal
    _data = sys.stdin.buffer.read()
    seal(int(sys.argv[1]) + 1)
    _out = pickle.dumps(_rerun(pickle.loads(_data)))
    sys.stdout.buffer.write(_out)
