"""Generated test vectors record a real run; failed writes are visible."""
import contextlib
import io
import json
import os
import pickle
import resource
import runpy
import shutil
import signal
import sys

from .. import cfg as C
from .. import ref as R
from .. import sut as S
from .. import toy
from ..kernel import HarnessError, Threads
from .common import check, describe, fresh_nonces, h8

RUNS = {'quick': 1100, 'thorough': 12000}
RULE = ('One decision per generation that reported success (its files '
        'compared and replayed step by step by the reference), per generation '
        'that had to fail, and per published file regenerated.')
ASSUMPTIONS = ['Vectors of Prio3HigherDegree are compared with the published '
               'file only.',
               'The number of proofs and the field of '
               'Prio3SumVecWithMultiproof are not recorded in a vector and '
               'are taken from the configuration.']
REAL = ['gen_test_vec_for_vdaf', 'write_test_vec', 'gen_test_vec.py',
        'Prio3 (all variants)', 'Poplar1', 'IDPF', 'XOFs',
        'the file system (a scratch directory)']
STUB = ['standard output', 'process crashes', 'file size limits']
MUST_REACH = ['cfg:poplar1', 'cfg:count', 'cfg:sum', 'cfg:sumvec',
              'cfg:histogram', 'cfg:multihot', 'cfg:multiproof', 'cfg:idpf',
              'cfg:xof', 'main', 'clean', 'size-limit', 'size-limit-hit',
              'killed-at-size',
              'crash', 'interrupt', 'crashed', 'interrupted',
              'directory-blocked', 'file-blocked', 'stale-file',
              'stdout-error', 'odd-path', 'partial-file-left',
              'regenerated-over-leftovers', 'failed-visibly', 'threads',
              'several-reports', 'negative-vector', 'cfg:toy', 'no-reports']


# ------------------------------------------------- running the generator

class Broken(io.StringIO):
    def __init__(self, left):
        super().__init__()
        self.left = left

    def write(self, s):
        self.left -= 1
        if self.left < 0:
            raise OSError(32, 'stdout gone')
        return super().write(s)


OURS = ('/test_utils.py', '/gen_test_vec.py', '/json/__init__.py',
        '/json/encoder.py')


def tracer(at, how, seen):
    """Counts the generator's own lines; stops the process at the nth."""
    def local(frame, event, arg):
        if event == 'line':
            seen[0] += 1
            if seen[0] == at:
                if how == 'crash':
                    os._exit(77)
                raise KeyboardInterrupt
        return local

    def start(frame, event, arg):
        return local if frame.f_code.co_filename.endswith(OURS) else None
    return start


def spawn(fn, cwd, limit=None, kill=False, at=None, how='crash', prints=None,
          env=None):
    """('ok', value, lines) | ('failed', type) | ('died',)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.chdir(cwd)
            if env:
                os.environ.update(env)
            os.dup2(os.open('stderr', os.O_WRONLY | os.O_CREAT, 0o600), 2)
            sys.stdout = io.StringIO() if prints is None else Broken(prints)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if kill:
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            if limit is not None:
                hard = resource.getrlimit(resource.RLIMIT_FSIZE)[1]
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
            seen = [0]
            try:
                if at is not None:
                    sys.settrace(tracer(at, how, seen))
                try:
                    val = fn()
                finally:
                    sys.settrace(None)
                res = ('ok', val, seen[0])
            except SystemExit as e:
                res = ('ok', None, seen[0]) if e.code in (None, 0) else \
                    ('failed', 'SystemExit')
            except BaseException as e:
                res = ('failed', type(e).__name__)
            with os.fdopen(w, 'wb') as f:
                f.write(pickle.dumps(res))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ('died',)


def generate(cfg, ap, ctx, ms, inst, path):
    from vdaf_poc.test_utils import gen_test_vec_for_vdaf
    v = cfg.make()
    tv = gen_test_vec_for_vdaf(
        path, v, v.decode_agg_param(ap) if ap else None, ctx, ms, inst)
    return json.loads(json.dumps(tv))


def main():
    runpy.run_path(os.path.join(S.POC, 'gen_test_vec.py'),
                   run_name='__main__')


def idpf_vector(vlen, bits, alpha, ctx, inst):
    g = runpy.run_path(os.path.join(S.POC, 'gen_test_vec.py'),
                       run_name='gen_test_vec')
    g['gen_test_vec_for_idpf'](S.idpf_mod.IdpfBBCGGI21(vlen, bits), alpha,
                               ctx, inst)


def xof_vector(name):
    g = runpy.run_path(os.path.join(S.POC, 'gen_test_vec.py'),
                       run_name='gen_test_vec')
    g['gen_test_vec_for_xof'](getattr(S.xof_mod, name))


def tree(root):
    out = {}
    for d, _, names in os.walk(root):
        for n in names:
            with open(os.path.join(d, n), 'rb') as f:
                out[os.path.relpath(os.path.join(d, n), root)] = f.read()
    return out


# ------------------------------------------------- replay by the reference

def reference(name, tv):
    s = tv['shares']
    if name == 'Prio3Count':
        return R.RefPrio3(1, R.CCount(), s)
    if name == 'Prio3Sum':
        return R.RefPrio3(2, R.CSum(tv['max_measurement']), s)
    if name == 'Prio3SumVec':
        return R.RefPrio3(3, R.CSumVec(tv['length'], tv['max_measurement'],
                                       tv['chunk_length']), s)
    if name == 'Prio3Histogram':
        return R.RefPrio3(4, R.CHistogram(tv['length'], tv['chunk_length']),
                          s)
    if name == 'Prio3MultihotCountVec':
        return R.RefPrio3(5, R.CMultihot(tv['length'], tv['max_weight'],
                                         tv['chunk_length']), s)
    if name == 'Poplar1':
        return R.RefPoplar1(tv['bits'])
    return None


class RefToy:
    """The toy over bytes, in the shape of the reference."""
    shares = 2

    def __init__(self, cfg):
        self.v = toy.Toy(*cfg.ctor_args())
        self.rounds = cfg.rounds

    def shard(self, ctx, m, nonce, rand):
        pub, sh = self.v.shard(ctx, m, nonce, rand)
        return pub, [self.v.encode_input_share(x) for x in sh]

    def verify_init(self, key, ctx, j, ap, nonce, pub, share):
        st, vs = self.v.verify_init(
            key, ctx, j, self.v.decode_agg_param(ap), nonce,
            self.v.decode_public_share(pub),
            self.v.decode_input_share(j, share))
        return st, self.v.encode_verifier_share(vs)

    def shares_to_msg(self, ctx, ap, shares):
        rnd = int.from_bytes(shares[0][:2], 'big')
        st = (None,) * 4 + (rnd,)
        return self.v.encode_verifier_message(
            self.v.verifier_shares_to_message(
                ctx, self.v.decode_agg_param(ap),
                [self.v.decode_verifier_share(st, x) for x in shares]))

    def verify_next(self, ctx, st, msg):
        out = self.v.verify_next(
            ctx, st, self.v.decode_verifier_message(st, msg))
        if isinstance(out, tuple):
            return 'cont', out[0], self.v.encode_verifier_share(out[1])
        return 'out', self.v.encode_out_share(out)

    def aggregate(self, ap, outs):
        return self.v.encode_agg_share(
            [sum(int.from_bytes(x, 'big') for x in outs) % toy.M])

    def unshard(self, ap, shares, n):
        return sum(int.from_bytes(x, 'big') for x in shares) % toy.M


def expected_ops(tv, rounds):
    s, out = tv['shares'], []
    for r in range(len(tv['reports'])):
        out.append(('shard', r, None, None))
        out += [('verify_init', r, j, None) for j in range(s)]
        for k in range(rounds):
            out.append(('verifier_shares_to_message', r, None, k))
            out += [('verify_next', r, j, k + 1) for j in range(s)]
    out += [('aggregate', None, j, None) for j in range(s)]
    return sorted(out + [('unshard', None, None, None)], key=repr)


def same(a, b, what, op):
    check(a == b, 'vector-not-reproduced', lambda: f'{what}: {op}')


def replay(ref, tv, what, complete=True):
    """Execute the listed operations in order with the recorded values."""
    H = bytes.fromhex
    ops = tv['operations']
    check(tv['shares'] == ref.shares, 'wrong-shares', what)
    if complete:
        got = sorted(((o['operation'], o.get('report_index'),
                       o.get('aggregator_id'), o.get('round'))
                      for o in ops), key=repr)
        check(got == expected_ops(tv, ref.rounds), 'operations-incomplete',
              what)
        check(all(o['success'] is True for o in ops), 'false-failure', what)
    key, ap, ctx = H(tv['verify_key']), H(tv['agg_param']), H(tv['ctx'])
    st = {}
    for o in ops:
        k, i, j = o['operation'], o.get('report_index'), \
            o.get('aggregator_id')
        r = tv['reports'][i] if i is not None else None
        try:
            if k == 'shard':
                pub, sh = ref.shard(ctx, r['measurement'], H(r['nonce']),
                                    H(r['rand']))
                same(pub.hex(), r['public_share'], what, o)
                same([x.hex() for x in sh], r['input_shares'], what, o)
            elif k == 'verify_init':
                st[i, j, 0], vs = ref.verify_init(
                    key, ctx, j, ap, H(r['nonce']), H(r['public_share']),
                    H(r['input_shares'][j]))
                same(vs.hex(), r['verifier_shares'][0][j], what, o)
            elif k == 'verifier_shares_to_message':
                m = ref.shares_to_msg(ctx, ap, [
                    H(x) for x in r['verifier_shares'][o['round']]])
                same(m.hex(), r['verifier_messages'][o['round']], what, o)
            elif k == 'verify_next':
                check((i, j, o['round'] - 1) in st, 'operations-out-of-order',
                      lambda: f'{what}: {o}')
                out = ref.verify_next(ctx, st[i, j, o['round'] - 1],
                                      H(r['verifier_messages'][o['round']
                                                               - 1]))
                if out[0] == 'cont':
                    st[i, j, o['round']] = out[1]
                    same(out[2].hex(), r['verifier_shares'][o['round']][j],
                         what, o)
                else:
                    same(out[1].hex(), r['out_shares'][j], what, o)
            elif k == 'aggregate':
                outs = [H(x['out_shares'][j]) for x in tv['reports']]
                a = ref.aggregate(ap, outs) if hasattr(ref, 'aggregate') \
                    else R.ref_agg(ref, ap, outs)
                same(a.hex(), tv['agg_shares'][j], what, o)
            elif k == 'unshard':
                same(ref.unshard(ap, [H(x) for x in tv['agg_shares']],
                                 len(tv['reports'])), tv['agg_result'],
                     what, o)
            else:
                check(False, 'unknown-operation', f'{what}: {o}')
            good = True
        except R.Reject:
            good = False
        check(o['success'] == good, 'success-flag-wrong',
              lambda: f'{what}: {o}')


def replay_idpf(tv, what):
    H = bytes.fromhex
    vl = len(tv['beta_leaf'])
    betas = [[int(x) for x in b] for b in tv['beta_inner']] + \
        [[int(x) for x in tv['beta_leaf']]]
    keys = [H(k) for k in tv['keys']]
    idpf = R.Idpf(vl, tv['bits'])
    cws, got = idpf.gen(tuple(tv['alpha']), betas, H(tv['ctx']),
                        H(tv['nonce']), b''.join(keys))
    same(idpf.encode_public(cws).hex(), tv['public_share'], what,
         'public share')
    same([k.hex() for k in got], tv['keys'], what, 'keys')


def replay_xof(tv, name):
    H = bytes.fromhex
    args = H(tv['seed']), H(tv['dst']), H(tv['binder'])
    cls = {'XofTurboShake128': R.Stream, 'XofFixedKeyAes128': R.AesStream}[name]
    same(cls(*args).read(len(args[0])).hex(), tv['derived_seed'], name,
         'derived seed')
    same(b''.join(x.to_bytes(16, 'little') for x in
                  cls(*args).vec(R.P128, tv['length'])).hex(),
         tv['expanded_vec_field128'], name, 'expanded vector')


def published():
    return tree(os.path.join(S.REPO, 'test_vec'))


# ------------------------------------------------- one generator

class Job:
    """What is generated, and how success is judged."""

    def __init__(self, ch, log):
        self.is_main = ch.chance(30)
        self.idpf = not self.is_main and ch.chance(60)
        self.inst = ch.pick([0, 1, 7, 12])
        self.ctx = b''
        self.xof = None
        if not self.is_main and not self.idpf and ch.chance(40):
            self.xof = ch.pick(['XofTurboShake128', 'XofFixedKeyAes128'])
            log.probe('cfg:xof')
            log.ev('cfg', self.xof)
            return
        if self.is_main:
            log.probe('main')
            log.ev('cfg', 'main')
        elif self.idpf:
            log.probe('cfg:idpf')
            self.ctx = C.gen_ctx(ch)
            self.bits = ch.between(1, 12)
            self.vlen = ch.between(1, 3)
            self.alpha = tuple(bool(ch.draw(2)) for _ in range(self.bits))
            log.ev('cfg', 'idpf', f'{self.bits} {self.vlen} {self.alpha}')
        else:
            if ch.chance(80):
                rounds = toy.gen_rounds(ch, many=150)
                self.cfg = toy.ToyCfg(rounds, toy.gen_pad(ch, rounds))
            elif ch.chance(300):
                self.cfg = C.gen_poplar(ch, big=False, max_bits=12)
            else:
                self.cfg = C.gen_prio3(ch, [k for k in C.PRIO3
                                            if k != 'mixed'],
                                       big=False, cap=1500)
            self.ctx = C.gen_ctx(ch)
            describe(log, self.cfg, self.ctx)
            n = ch.pick([1, 1, 2, 3])
            if self.cfg.weight() < 400 and ch.chance(60):
                n = ch.between(9, 20)
                log.probe('many-reports')
            if ch.chance(30):
                n = 0
                log.probe('no-reports')
            if n > 1:
                log.probe('several-reports')
            self.ms = [self.cfg.gen_meas(ch) for _ in range(n)]
            self.ap = b''
            if self.cfg.kind == 'toy':
                self.ap = toy.gen_param(ch) or bytes(4)
            if self.cfg.poplar:
                lv = self.cfg.gen_level(ch)
                self.ap = self.cfg.param(
                    lv, self.cfg.gen_prefixes(ch, lv, self.ms, empty=20))

    def desc(self):
        return self.xof or 'published set' if self.is_main or self.xof else \
            f'idpf {self.bits} bits' if self.idpf else self.cfg.desc()

    def run(self, path, cwd, **kw):
        if self.is_main:
            return spawn(main, cwd, env={'TEST_VECTOR_PATH': path}, **kw)
        if self.xof:
            return spawn(lambda: xof_vector(self.xof), cwd,
                         env={'TEST_VECTOR_PATH': path}, **kw)
        if self.idpf:
            return spawn(lambda: idpf_vector(self.vlen, self.bits, self.alpha,
                                             self.ctx, self.inst), cwd,
                         env={'TEST_VECTOR_PATH': path}, **kw)
        return spawn(lambda: generate(self.cfg, self.ap, self.ctx, self.ms,
                                      self.inst, path), cwd, **kw)

    def judge(self, log, clean, value):
        """Judge a fault-free generation into an empty directory."""
        what = self.desc()
        if self.is_main:
            pub = published()
            for n in sorted(pub):
                check(n in clean, 'published-file-missing', n)
                check(clean[n] == pub[n], 'published-file-differs', n)
                log.ok()
                name, _, suffix = os.path.basename(n)[:-5].partition('_')
                tv = json.loads(clean[n])
                if name == 'IdpfBBCGGI21':
                    replay_idpf(tv, n)
                elif name.startswith('Xof'):
                    replay_xof(tv, name)
                elif 'operations' in tv:
                    ref = R.RefPrio3(0xFFFFFFFF, R.CSumVec(
                        tv['length'], tv['max_measurement'],
                        tv['chunk_length'], R.P64), tv['shares'], 3) \
                        if name == 'Prio3SumVecWithMultiproof' else \
                        reference(name, tv)
                    if ref is not None:
                        if not suffix.isdigit():
                            log.probe('negative-vector')
                        replay(ref, tv, n, suffix.isdigit())
                else:
                    continue
                log.ok()
            return
        files = [n for n in clean if n.endswith('.json')]
        check(len(files) == 1, 'not-one-file', lambda: f'{what}: {files}')
        tv = json.loads(clean[files[0]])
        if self.xof:
            replay_xof(tv, self.xof)
        elif self.idpf:
            check(tv['bits'] == self.bits and
                  tuple(tv['alpha']) == self.alpha and
                  tv['ctx'] == self.ctx.hex() and
                  len(tv['beta_leaf']) == self.vlen and
                  len(tv['beta_inner']) == self.bits - 1,
                  'vector-parameters-wrong', what)
            replay_idpf(tv, what)
        else:
            check(tv == value, 'file-differs-from-result', what)
            check(tv['ctx'] == self.ctx.hex() and
                  tv['agg_param'] == self.ap.hex() and
                  len(tv['reports']) == len(self.ms) and
                  [r['measurement'] for r in tv['reports']] ==
                  json.loads(json.dumps(self.ms)), 'vector-parameters-wrong',
                  what)
            name = self.cfg.make().test_vec_name
            check(os.path.basename(files[0]) == f'{name}_{self.inst}.json',
                  'file-name-wrong', lambda: f'{what}: {files[0]}')
            ref = self.cfg.ref() if self.cfg.kind == 'multiproof' else \
                RefToy(self.cfg) if self.cfg.kind == 'toy' else \
                reference(name, tv)
            replay(ref, tv, what)
            if not self.cfg.poplar and self.cfg.kind != 'toy':
                same(tv['agg_result'], self.cfg.plain(self.ms), what,
                     'plain aggregate')
        log.ok()


def run(ch, log):
    base = f'/tmp/vdaf-dst-vectors-{os.getpid()}'
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(os.path.join(base, 'cwd'))
    try:
        scenario(ch, log, base)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def scenario(ch, log, base):
    cwd = os.path.join(base, 'cwd')
    job = Job(ch, log)
    what = job.desc()
    if not (job.is_main or job.idpf or job.xof) and ch.chance(40):
        return concurrent(ch, log, base, job)

    # without faults, into a fresh directory
    first = os.path.join(base, 'clean', 'a')
    res = job.run(first, cwd, at=-1)
    check(res[0] == 'ok', 'generation-failed', lambda: f'{what}: {res}')
    clean = tree(first)
    log.ev('clean', f'{len(clean)} files', h8(repr(sorted(clean.items())).encode()))
    log.probe('clean')
    job.judge(log, clean, res[1])
    lines = res[2]

    # with faults, possibly over what earlier attempts left behind
    dirs = ch.pick(['out', 'out/', 'deep/er/out', 'odd dir', "it's", 'rel'])
    odd = dirs in ('odd dir', "it's")
    real = os.path.join(cwd if dirs == 'rel' else os.path.join(base, 'f'),
                        dirs)
    path = dirs if dirs == 'rel' else real
    if odd:
        log.probe('odd-path')
        if ch.draw(2):
            os.makedirs(real)
    left_over = False
    for attempt in range(ch.between(1, 1 if job.is_main else 4)):
        kind = ch.pick(['size', 'kill', 'crash', 'interrupt', 'dir', 'file',
                        'stale', 'stdout'])
        kw, undo = {}, None
        must_fail = False
        names = sorted(clean)
        if kind in ('size', 'kill'):
            big = max(len(clean[n]) for n in names)
            small = min(len(clean[n]) for n in names)
            n = ch.pick([0, 1, small - 1, small, big - 1, big,
                         ch.draw(big + 1), ch.draw(big + 1)])
            kw = {'limit': n, 'kill': kind == 'kill'}
            log.fault('size-limit' if kind == 'size' else 'killed-at-size')
            must_fail = n < big
        elif kind in ('crash', 'interrupt'):
            # most lines belong to writing the file
            kw = {'at': 1 + ch.draw(max(1, lines)), 'how': kind}
            log.fault(kind)
        elif kind == 'dir':
            blocker = ch.pick([real.rstrip('/')] +
                              ([os.path.join(real, 'vdaf')] if job.is_main
                               else []))
            if not os.path.lexists(blocker):
                os.makedirs(os.path.dirname(blocker), exist_ok=True)
                with open(blocker, 'wb') as f:
                    f.write(b'in the way')
                undo = lambda: os.unlink(blocker)
                log.fault('directory-blocked')
                must_fail = True
        elif kind == 'file':
            blocker = os.path.join(real, ch.pick(names))
            if not os.path.lexists(blocker):
                os.makedirs(os.path.join(blocker, 'x'))
                undo = lambda: shutil.rmtree(blocker)
                log.fault('file-blocked')
                must_fail = True
        elif kind == 'stale':
            for name in ch.subset(names) or names:
                n = os.path.join(real, name)
                os.makedirs(os.path.dirname(n), exist_ok=True)
                with open(n, 'wb') as f:
                    f.write(ch.pick([b'', b'{}', b'\xff' * 50,
                                     clean[name] + b'tail',
                                     b'x' * (len(clean[name]) * 2),
                                     clean[name][:-1]]))
            log.fault('stale-file')
            left_over = True
        else:
            kw = {'prints': ch.pick([0, 1, ch.draw(400), ch.draw(400)])}
            log.fault('stdout-error')
        res = job.run(path, cwd, **kw)
        log.ev('attempt', kind, res[0])
        after = tree(real)
        if undo:
            undo()
        if res[0] == 'ok':
            check(not must_fail, 'failure-not-reported',
                  lambda: f'{what}: {kind} {kw}')
            for n in names:
                check(after.get(n) == clean[n], 'silently-incomplete',
                      lambda: f'{what}: {kind} {kw} {n}')
        else:
            log.probe('failed-visibly')
            if kind == 'size':
                log.probe('size-limit-hit')
            if res[0] == 'died':
                log.probe('crashed')
            if kind == 'interrupt':
                log.probe('interrupted')
            if kind == 'stale' and not odd:
                check(False, 'stale-file-blocks', lambda: f'{what}: {res}')
        log.ok()
        if any(n in after and after[n] != clean[n] for n in names):
            left_over = True
            log.probe('partial-file-left')

    # everything works again
    if odd:
        return
    res = job.run(path, cwd)
    check(res[0] == 'ok', 'no-recovery', lambda: f'{what}: {res}')
    after = tree(real)
    for n in sorted(clean):
        check(after.get(n) == clean[n], 'regeneration-differs',
              lambda: f'{what}: {n}')
    if left_over:
        log.probe('regenerated-over-leftovers')
    log.ok()


def concurrent(ch, log, base, job):
    """Several generators in one process share the output directory."""
    log.probe('threads')
    out = os.path.join(base, 'shared')
    jobs = [job]
    for _ in range(ch.between(1, 2)):
        j = Job(ch, log)
        if not (j.is_main or j.idpf or j.xof):
            jobs.append(j)
    for k, j in enumerate(jobs):
        j.inst = k
    want = {}
    for k, j in enumerate(jobs):
        d = os.path.join(base, f'alone{k}')
        res = j.run(d, os.path.join(base, 'cwd'))
        check(res[0] == 'ok', 'generation-failed',
              lambda: f'{j.desc()}: {res}')
        want.update(tree(d))
    with contextlib.redirect_stdout(io.StringIO()):
        res = Threads(ch, log, S.POC, most=120).run(
            [lambda j=j: generate(j.cfg, j.ap, j.ctx, j.ms, j.inst, out)
             for j in jobs])
    for r in res:
        if r[0] == 'exc':
            check(False, 'generation-failed',
                  f'{[j.desc() for j in jobs]}: {r[1]!r}')
    got = tree(out)
    for n in sorted(want):
        check(got.get(n) == want[n], 'concurrent-generation-differs', n)
    log.ok()
