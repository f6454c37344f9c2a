"""Two tree servers reconstruct exactly the programmed path over any history."""
from .. import cfg as C
from .. import sut as S
from ..kernel import HarnessError, Tasks, Threads, Violation
from .common import check, h8

RUNS = {'quick': 3800, 'thorough': 45000}
RULE = ('One decision per answered request (both servers added up, every '
        'prefix compared with the programmed value) and one per malformed '
        'request.')
ASSUMPTIONS = []
REAL = ['IdpfBBCGGI21', 'XOFs', 'fields', 'public share encoding']
STUB = ['servers', 'requests', 'restarts', 'randomness source']
MUST_REACH = ['restart', 'lost-request', 'repeated', 'root', 'leaf',
              'level-down', 'on-path', 'off-path', 'sibling', 'bad-level',
              'bad-duplicate', 'bad-length', 'bad-server', 'bad-gen',
              'value-len-1', 'value-len-many', 'one-bit', 'long',
              'several-reports', 'shared-object', 'threads', 'preempt',
              'empty-request', 'zero-value', 'max-value', 'list-prefixes',
              'same-key-both', 'request-after-bad',
              'value-len-large']


def values(ch, fld, n, log):
    out = []
    for _ in range(n):
        k = ch.draw(6)
        if k == 0:
            out.append(0)
            log.probe('zero-value')
        elif k == 1:
            out.append(fld.MODULUS - 1)
            log.probe('max-value')
        elif k == 2:
            out.append(1)
        else:
            out.append(int.from_bytes(ch.fresh(40, 'beta'), 'little')
                       % fld.MODULUS)
    return out


class Programmed:
    """A programmed path and the two servers' material."""

    def __init__(self, ch, log, idpf, ctx, i):
        self.i, self.ctx = i, ctx
        bits, vl = idpf.BITS, idpf.VALUE_LEN
        self.alpha = C.Pop(bits).gen_meas(ch)
        self.betas = [values(ch, idpf.field_inner, vl, log)
                      for _ in range(bits - 1)]
        self.betas.append(values(ch, idpf.field_leaf, vl, log))
        self.nonce = ch.blob(idpf.NONCE_SIZE, f'nonce{i}')
        rand = ch.blob(idpf.RAND_SIZE, f'rand{i}')
        if rand[:16] == rand[16:]:
            log.probe('same-key-both')
        inner = [[idpf.field_inner(x) for x in b] for b in self.betas[:-1]]
        leaf = [idpf.field_leaf(x) for x in self.betas[-1]]
        if ch.chance(100):
            self.bad_gen(ch, log, idpf, inner, leaf, rand)
        self.pub, self.keys = idpf.gen(self.alpha, inner, leaf, ctx,
                                       self.nonce, rand)
        check([[x.int() for x in b] for b in inner] +
              [[x.int() for x in leaf]] == self.betas, 'values-changed', '')
        self.wire = idpf.encode_public_share(self.pub)
        log.ev('gen', i, h8(self.wire + b''.join(self.keys)))

    def bad_gen(self, ch, log, idpf, inner, leaf, rand):
        how = ch.draw(6)
        a, b, c, n, r = self.alpha, inner, leaf, self.nonce, rand
        if how == 0:
            a = ch.pick([a + (True,), a[:-1]])
        elif how == 1:
            b = b + [list(leaf)] if ch.draw(2) or not b else b[:-1]
        elif how == 2:
            c = ch.pick([c + c, c[:-1]])
        elif how == 3:
            n = ch.pick([n[:-1], n + b'\0', b''])
        elif how == 4:
            r = ch.pick([r[:-1], r + b'\0', r[:16]])
        elif b:
            k = ch.draw(len(b))
            b = b[:k] + [ch.pick([b[k][:-1], b[k] + b[k]])] + b[k + 1:]
        else:
            return
        must_refuse(lambda: idpf.gen(a, b, c, self.ctx, n, r),
                    f'gen {how} bits={idpf.BITS}')
        log.probe('bad-gen')
        log.ok()

    def want(self, level, prefix):
        if tuple(prefix) == tuple(self.alpha[:level + 1]):
            return self.betas[level]
        return [0] * len(self.betas[level])


def must_refuse(fn, what):
    try:
        fn()
    except (Violation, HarnessError, MemoryError):
        raise
    except Exception:
        return
    check(False, 'malformed-request-answered', what)


class Server:
    """Holds its key and the public share; may restart from stored bytes."""

    def __init__(self, j, make, rep, shared, use_shared_pub):
        self.j, self.make, self.rep = j, make, rep
        self.idpf = shared
        self.key = rep.keys[j]
        self.pub = rep.pub if use_shared_pub else \
            shared.decode_public_share(rep.wire)
        self.asked = []
        self.bad_before = False

    def restart(self):
        self.idpf = self.make()
        self.pub = self.idpf.decode_public_share(self.rep.wire)

    def answer(self, level, prefixes):
        self.asked.append(level)
        return self.idpf.eval(self.j, self.pub, self.key, level, prefixes,
                              self.rep.ctx, self.rep.nonce)


def request(ch, log, bits, rep, asked):
    how = ch.draw(6)
    if how == 0 and asked:
        level = asked[-1]
    elif how == 1:
        level = bits - 1
    elif how == 2:
        level = 0
    elif how == 3 and asked:
        level = min(bits - 1, asked[-1] + 1)
    else:
        level = ch.draw(bits)
    if asked and level < asked[-1]:
        log.probe('level-down')
    if level == 0:
        log.probe('root')
    if level == bits - 1:
        log.probe('leaf')
    out = []
    me = tuple(rep.alpha[:level + 1])
    for _ in range(ch.weighted([(1, 3), (2, 3), (4, 3), (8, 1), (0, 1)])):
        k = ch.draw(6)
        if k == 0:
            pre = me
        elif k == 1:
            pre = me[:-1] + (not me[-1],)
            log.probe('sibling')
        elif k == 2:
            i = ch.draw(level + 1)
            pre = me[:i] + (not me[i],) + me[i + 1:]
        elif k == 3:
            i = ch.draw(level + 1)
            pre = me[:i] + (ch.draw(2) == 1,) * (level + 1 - i)
        else:
            v = ch.draw(2**30)
            pre = tuple(bool((v >> (i % 30)) & 1) for i in range(level + 1))
        if pre not in out:
            out.append(pre)
    if ch.chance(400):
        out = ch.shuffle(out)
    if not out:
        log.probe('empty-request')
    return level, out


def malformed(ch, log, srv, bits):
    rep = srv.rep
    level = ch.draw(bits)
    pre = [tuple(rep.alpha[:level + 1])]
    other = tuple(not b for b in pre[0])
    how = ch.draw(4)
    args = [srv.j, srv.pub, srv.key, level, pre, rep.ctx, rep.nonce]
    if how == 0:
        bad = ch.pick([bits, bits + 1, -1, -bits, 2**16])
        args[3] = bad
        if ch.draw(2):
            args[4] = [(False,) * min(bad + 1, 70000)] \
                if ch.draw(2) else []
        log.probe('bad-level')
    elif how == 1:
        args[4] = ch.pick([pre + pre, [other] + pre + [other],
                           pre + [other] + pre])
        log.probe('bad-duplicate')
    elif how == 2:
        short, long_ = pre[0][:-1], pre[0] + (False,)
        args[4] = ch.pick([[short], [long_], pre + [short], pre + [long_],
                           [long_] + pre, [()], pre + [()],
                           [other] + pre + [long_]])
        log.probe('bad-length')
    else:
        args[0] = ch.pick([2, -1, 3, 255])
        if ch.chance(200):
            args[4] = []
        log.probe('bad-server')
    if ch.draw(2):
        args[4] = tuple(args[4])
    must_refuse(lambda: srv.idpf.eval(*args),
                f'{["level", "duplicate", "length", "server"][how]} '
                f'bits={bits} level={args[3]}')
    srv.bad_before = True
    log.fault('malformed')
    log.ok()


def judge(log, rep, level, prefixes, ans, bits):
    fld = S.F.Field64 if level < bits - 1 else S.F.Field255
    what = f'report {rep.i} bits {bits} level {level} of {len(prefixes)}'
    for a in ans:
        check(len(a) == len(prefixes), 'answer-length', what)
    for k, pre in enumerate(prefixes):
        a, b = ans[0][k], ans[1][k]
        want = rep.want(level, pre)
        check(len(a) == len(b) == len(want), 'value-length', what)
        check(all(x.MODULUS == fld.MODULUS for x in list(a) + list(b)),
              'wrong-field', what)
        got = [(x.int() + y.int()) % fld.MODULUS for x, y in zip(a, b)]
        on = tuple(pre) == tuple(rep.alpha[:level + 1])
        log.probe('on-path' if on else 'off-path')
        check(got == want, 'wrong-on-path' if on else 'wrong-off-path',
              lambda: f'{what} prefix {k}: {got}, programmed {want}')
    log.ok()


def session(ch, log, servers, bits, steps):
    """A history of requests for one report."""
    rep = servers[0].rep
    seen = set()
    yield 'start'
    for _ in range(steps):
        if ch.chance(150):
            s = ch.pick(servers)
            s.restart()
            log.fault('restart', f'server {s.j}')
        if ch.chance(200):
            malformed(ch, log, ch.pick(servers), bits)
            yield 'malformed'
        level, prefixes = request(ch, log, bits, rep, servers[0].asked)
        arg = list(prefixes) if ch.draw(2) else tuple(prefixes)
        if isinstance(arg, list):
            log.probe('list-prefixes')
        key = (level, tuple(prefixes))
        if key in seen:
            log.probe('repeated')
        seen.add(key)
        ans = [None, None]
        for s in ch.shuffle(servers):
            if ch.chance(80):
                # the answer is lost and the request repeated
                s.answer(level, arg)
                log.fault('lost-request', f'server {s.j}')
                log.probe('repeated')
                yield 'lost'
            ans[s.j] = s.answer(level, arg)
            if s.bad_before:
                log.probe('request-after-bad')
            yield f'answer {s.j} level {level}'
        check(tuple(arg) == tuple(prefixes), 'request-changed', '')
        judge(log, rep, level, prefixes, ans, bits)


def drain(g):
    for _ in g:
        pass


def run(ch, log):
    bits = ch.weighted([(1, 2), (2, 2), (3, 2), (ch.between(4, 9), 5),
                        (ch.between(10, 33), 3),
                        (ch.pick([63, 64, 65, 128, 256, 300]), 1)])
    vl = ch.weighted([(1, 3), (2, 4), (3, 2), (5, 1), (17, 1)])
    if bits < 10 and ch.chance(30):
        vl = ch.pick([32, 33, 64, 65, 100, 129, 257])
        log.probe('value-len-large')
    if bits == 1:
        log.probe('one-bit')
    if bits > 60:
        log.probe('long')
    log.probe('value-len-1' if vl == 1 else 'value-len-many' if vl > 2
              else 'value-len-2')

    def make():
        return S.idpf_mod.IdpfBBCGGI21(vl, bits)
    n = ch.weighted([(1, 3), (2, 3), (3, 1)])
    if n > 1:
        log.probe('several-reports')
    log.ev('cfg', f'bits={bits} value_len={vl} reports={n}')
    one = make()
    ctx = C.gen_ctx(ch)
    runs = []
    for i in range(n):
        shared = ch.chance(700)
        if shared:
            log.probe('shared-object')
        rep = Programmed(ch, log, one if shared else make(),
                         ctx if ch.chance(700) else C.gen_ctx(ch), i)
        pubs = ch.chance(500)
        servers = [Server(j, make, rep, one if shared else make(), pubs)
                   for j in (0, 1)]
        steps = ch.between(1, 3 if bits > 60 else 8)
        runs.append(session(ch, log, servers, bits, steps))
    if n > 1 and ch.chance(150):
        log.probe('threads')
        res = Threads(ch, log, S.POC, most=300).run(
            [lambda g=g: drain(g) for g in runs])
        for r in res:
            if r[0] == 'exc':
                raise r[1]
        return
    t = Tasks(ch, log)
    for i, g in enumerate(runs):
        t.add(f's{i}', g)
    t.run()
