"""A simulated deployment: clients, aggregators, collector.

The aggregators follow the pattern of a production deployment: uploads and
verdicts are durable, requests carry the messages exchanged so far so that a
restarted helper can recompute its state, commits are idempotent, aggregates
live in several storage shards.  Every VDAF step is executed by the code under
test (or, in mixed deployments, by the reference).
"""
import pickle

from . import ref as R
from . import sut as S
from .kernel import DiskError, HarnessError, Node, Violation, check, h8

REFUSALS = (Exception,)


class Task:
    """Everything the aggregators agree on."""

    def __init__(self, cfg, ctx, key, buckets=2, topology='star'):
        self.cfg, self.ctx, self.key = cfg, ctx, key
        self.buckets, self.topology = buckets, topology
        self.shares, self.rounds = cfg.shares, cfg.rounds
        # Per-node views can be made to disagree by a workload.
        self.impl_for = lambda j: cfg.sut()
        self.ctx_for = lambda j: ctx
        self.key_for = lambda j: key
        self.ap_for = lambda j, ap: ap
        self.nonce_for = lambda j, nonce: nonce
        self.agg_id_for = lambda j: j


class Report:
    def __init__(self, nonce, pub, shares, meas=None, honest=True, note=''):
        self.nonce, self.pub, self.shares = nonce, pub, shares
        self.meas, self.honest, self.note = meas, honest, note

    def pub_for(self, j):
        return self.pub[j] if isinstance(self.pub, list) else self.pub


def agg_name(j):
    return f'agg{j}'


class Aggregator(Node):
    def __init__(self, task, j):
        super().__init__(agg_name(j))
        self.task, self.j = task, j
        self.vol = {}
        self.impl = None
        self.steps = 0

    def boot(self):
        self.impl = self.task.impl_for(self.j)

    def wipe(self):
        self.vol = {}
        self.impl = None

    # -- aggregation
    def commit_records(self, job, out, extra=()):
        """Durable records that add an output share exactly once."""
        ap = self.ap_of(job)
        b = self.sim.ch.draw(self.task.buckets)
        key = f'bucket/{job[0]}/{b}'
        cur = self.disk.read(key)
        if cur is None:
            cur = self.impl.agg_init(ap)
        new = self.impl.agg_update(ap, cur, out)
        rec = {key: new, f'committed/{job}': b'1'}
        rec.update(extra)
        return rec

    def agg_share(self, k, ap):
        parts = [self.disk.read(key)
                 for key in self.disk.keys(f'bucket/{k}/')]
        ch = self.sim.ch
        if ch.chance(50):
            # storage shards that received nothing
            parts += [self.impl.agg_init(ap) for _ in range(
                ch.pick([1, 2, 7, 20, 70, 130, 270]))]
            self.sim.log.probe('empty-shards')
        parts = ch.shuffle(parts)
        if len(parts) == 1 and self.sim.ch.draw(2):
            return parts[0]
        return self.impl.merge(ap, parts)

    def ap_of(self, job):
        return self.task.ap_for(self.j, self.disk.read(f'ap/{job[0]}'))

    def init(self, job, nonce, pub, share):
        t = self.task
        self.steps += 1
        return self.impl.verify_init(
            t.key_for(self.j), t.ctx_for(self.j), t.agg_id_for(self.j),
            self.ap_of(job), t.nonce_for(self.j, nonce), pub, share)

    def next(self, job, state, msg, last):
        self.steps += 1
        return self.impl.verify_next(self.task.ctx_for(self.j), state, msg,
                                     last)


class Helper(Aggregator):
    """Star topology."""

    def on_message(self, src, kind, body):
        if body[0] != self.name:
            self.sim.log.ev(self.name, 'not-for-me')
            return
        fn = getattr(self, 'on_' + kind, None)
        if fn is None:
            self.sim.log.ev(self.name, 'ignored', kind)
            return
        fn(src, *body[1:])

    def on_REQ(self, src, job, ap, nonce, pub, share, msgs):
        d = self.disk
        if d.read(f'aborted/{job}'):
            self.send(src, 'REJ', (src, self.j, job))
            return
        if d.read(f'committed/{job}') or (
                len(msgs) == self.task.rounds and d.read(f'out/{job}')
                is not None):
            self.send(src, 'DONE', (src, self.j, job))
            return
        if d.read(f'ap/{job[0]}') is None:
            d.write(f'ap/{job[0]}', ap)
        rec = self.vol.get(job)
        if rec is None:
            saved = d.read(f'ckpt/{job}')
            if saved is not None:
                r, vs, kind, st = pickle.loads(saved)
                if r <= len(msgs) and kind == self.impl.is_ref:
                    rec = self.vol[job] = [self.impl.load(st), r, {r: vs}]
                    self.sim.log.probe('restored-checkpoint')
        try:
            if rec is None:
                st, vs = self.init(job, nonce, pub, share)
                rec = self.vol[job] = [st, 0, {0: vs}]
            while rec[1] < len(msgs):
                r = rec[1]
                last = r + 1 == self.task.rounds
                out = self.next(job, rec[0], msgs[r], last)
                if last:
                    d.write(f'out/{job}', out)
                    rec[1] = r + 1
                else:
                    rec[0] = out[0]
                    rec[2][r + 1] = out[1]
                    rec[1] = r + 1
        except Violation:
            raise
        except (S.pickle.PicklingError, HarnessError):
            raise
        except Exception as e:
            if type(e).__module__ == 'dst.kernel':
                raise
            self.note_refusal(job, e)
            d.write(f'aborted/{job}', b'1')
            self.send(src, 'REJ', (src, self.j, job))
            return
        if rec[1] == self.task.rounds:
            self.send(src, 'DONE', (src, self.j, job))
            return
        if self.sim.ch.chance(400):
            d.write(f'ckpt/{job}', pickle.dumps(
                (rec[1], rec[2][rec[1]], self.impl.is_ref,
                 self.impl.save(rec[0]))),
                sync=False)
        # A duplicate of an earlier request must get the earlier answer.
        r = len(msgs)
        if r in rec[2]:
            self.send(src, 'VS', (src, self.j, job, r, rec[2][r]))

    def on_COMMIT(self, src, job):
        d = self.disk
        if not d.read(f'committed/{job}'):
            out = d.read(f'out/{job}')
            if out is None or d.read(f'aborted/{job}'):
                return
            d.write_many(self.commit_records(job, out))
        self.send(src, 'COMMITTED', (src, self.j, job))

    def on_ABORT(self, src, job):
        if not self.disk.read(f'committed/{job}'):
            self.disk.write(f'aborted/{job}', b'1')
            self.send(src, 'ABORTED', (src, self.j, job))

    def on_AGG(self, src, k, ap):
        if self.disk.read(f'ap/{k}') is None:
            self.disk.write(f'ap/{k}', ap)
        share = self.agg_share(k, self.task.ap_for(self.j, ap))
        self.send(src, 'AGGSHARE', (src, self.j, k, share))

    def note_refusal(self, job, e):
        self.sim.log.ev(self.name, 'refuse', f'{job} {type(e).__name__}')
        self.sim.refusals.setdefault(job, []).append(
            (self.j, type(e).__name__, str(e)[:80]))


class Leader(Helper):
    """Star topology: gathers verifier shares, combines, broadcasts."""
    TICK = 60_000

    def boot(self):
        super().boot()
        self.vol = {}
        self.sim.timer(self, self.TICK, self.tick)
        self.resume()

    def resume(self):
        for k in self.disk.keys('ap/'):
            self.start_jobs(int(k.split('/')[1]))

    # uploads
    def on_UPLOAD(self, src, i, rep):
        if self.disk.read(f'report/{i:04}') is None:
            self.disk.write(f'report/{i:04}', rep)
        self.send(src, 'STORED', (src, i))

    def reports(self):
        return [int(k.split('/')[1]) for k in self.disk.keys('report/')]

    # collections
    def on_COLLECT(self, src, k, ap, n):
        if self.disk.read(f'ap/{k}') is None:
            if len(self.reports()) < n:
                return
            self.disk.write(f'ap/{k}', ap)
        self.start_jobs(k)
        jobs = [(k, i) for i in self.reports()]
        if all(self.closed(job) for job in jobs):
            acc = tuple(i for i in self.reports()
                        if self.disk.read(f'verdict/{(k, i)}') == b'acc')
            self.send(src, 'READY', (src, k, acc))

    def closed(self, job):
        return self.disk.read(f'closed/{job}') is not None

    def start_jobs(self, k):
        for i in self.reports():
            job = (k, i)
            if job not in self.vol and not self.closed(job):
                try:
                    self.start_job(job)
                except DiskError:
                    self.vol.pop(job, None)     # tried again at the next tick
                    raise

    def report(self, job):
        return self.disk.read(f'report/{job[1]:04}')

    def start_job(self, job):
        d = self.disk
        rec = self.vol[job] = {'state': None, 'msgs': [], 'shares': {},
                               'done': set(), 'acked': set()}
        if d.read(f'verdict/{job}'):
            self.push(job)
            return
        msgs = pickle.loads(d.read(f'msgs/{job}') or pickle.dumps([]))
        rep = self.report(job)
        try:
            rec['state'], rec['shares'][0] = self.init(
                job, rep.nonce, rep.pub_for(0), rep.shares[0])
            for r, m in enumerate(msgs):
                self.own_step(job, rec, m)
        except Exception as e:
            self.refuse(job, e)
            return
        self.push(job)

    def own_step(self, job, rec, m):
        r = len(rec['msgs'])
        last = r + 1 == self.task.rounds
        out = self.next(job, rec['state'], m, last)
        if last:
            rec['out'] = out
        else:
            rec['state'] = out[0]
            rec['shares'] = {0: out[1]}
        rec['msgs'].append(m)

    def refuse(self, job, e):
        if isinstance(e, (Violation, HarnessError)) or \
                type(e).__module__ == 'dst.kernel':
            raise e
        self.note_refusal(job, e)
        self.reject(job)

    def reject(self, job):
        if not self.disk.read(f'verdict/{job}'):
            self.disk.write(f'verdict/{job}', b'rej')
        self.push(job)

    def push(self, job):
        """(Re)send whatever the job is waiting for."""
        rec = self.vol[job]
        verdict = self.disk.read(f'verdict/{job}')
        n = self.task.shares
        if verdict:
            if len(rec['acked']) == n - 1:
                if not self.closed(job):
                    self.disk.write(f'closed/{job}', b'1')
                return
            kind = 'COMMIT' if verdict == b'acc' else 'ABORT'
            for j in range(1, n):
                if j not in rec['acked']:
                    self.send(agg_name(j), kind, (agg_name(j), job))
            return
        rep = self.report(job)
        ap = self.disk.read(f'ap/{job[0]}')
        over = len(rec['msgs']) == self.task.rounds
        if over and len(rec['done']) == n - 1:
            self.disk.write_many(self.commit_records(
                job, rec['out'], {f'verdict/{job}': b'acc'}))
            self.push(job)
            return
        for j in range(1, n):
            if (j in rec['done']) if over else (j in rec['shares']):
                continue
            self.send(agg_name(j), 'REQ', (
                agg_name(j), job, ap, rep.nonce, rep.pub_for(j),
                rep.shares[j], tuple(rec['msgs'])))
        if n == len(rec['shares']) and not over:
            self.advance(job)

    def advance(self, job):
        rec = self.vol[job]
        n = self.task.shares
        if self.disk.read(f'verdict/{job}') or \
                len(rec['msgs']) == self.task.rounds or \
                len(rec['shares']) < n:
            return
        try:
            self.steps += 1
            m = self.impl.shares_to_msg(
                self.task.ctx_for(0), self.ap_of(job), rec['state'],
                [rec['shares'][j] for j in range(n)])
        except Exception as e:
            self.refuse(job, e)
            return
        self.disk.write(f'msgs/{job}', pickle.dumps(rec['msgs'] + [m]))
        try:
            self.own_step(job, rec, m)
        except Exception as e:
            self.refuse(job, e)
            return
        self.push(job)

    def on_VS(self, src, j, job, r, share):
        rec = self.vol.get(job)
        if rec is None or self.disk.read(f'verdict/{job}'):
            return
        if r == len(rec['msgs']) and j not in rec['shares']:
            rec['shares'][j] = share
            self.advance(job)

    def on_DONE(self, src, j, job):
        rec = self.vol.get(job)
        if rec is None or self.disk.read(f'verdict/{job}') or \
                len(rec['msgs']) < self.task.rounds:
            return
        rec['done'].add(j)
        if len(rec['done']) == self.task.shares - 1:
            self.push(job)

    def on_REJ(self, src, j, job):
        if job in self.vol and not self.disk.read(f'verdict/{job}'):
            self.reject(job)

    def on_COMMITTED(self, src, j, job):
        rec = self.vol.get(job)
        if rec is not None:
            rec['acked'].add(j)
            if len(rec['acked']) == self.task.shares - 1:
                self.push(job)

    on_ABORTED = on_COMMITTED

    def tick(self):
        self.sim.timer(self, self.TICK, self.tick)
        self.resume()
        for job in list(self.vol):
            if not self.closed(job):
                self.push(job)


# ------------------------------------------------------- ping-pong topology

class PPNode(Helper):
    """Shared by both ping-pong roles."""

    def boot(self):
        self.impl = self.task.impl_for(self.j)
        self.pp = self.task.pp_for(self.j)

    def pp_kind(self):
        """Saved states are private to an implementation."""
        return getattr(self.pp, 'is_ref', False)

    def fin(self, st):
        n = type(st).__name__
        return n in ('Finished', 'FinishedWithOutbound')

    def out_bytes(self, st):
        return self.pp.encode_out_share(st.out_share)

    def saw(self, job, step, st):
        """History for the oracles."""
        out = self.out_bytes(st) if self.fin(st) else None
        self.sim.pp_states.setdefault(job, {}).setdefault(step, set()).add(
            (type(st).__name__, out))


class PPHelper(PPNode):
    def on_PP(self, src, job, ap, nonce, pub, share, step, inbound):
        """Odd answers to even steps."""
        d = self.disk
        t = self.task
        if d.read(f'aborted/{job}'):
            self.send(src, 'REJ', (src, self.j, job))
            return
        if d.read(f'ap/{job[0]}') is None:
            d.write(f'ap/{job[0]}', ap)
        log = pickle.loads(d.read(f'in/{job}') or pickle.dumps([]))
        idx = step // 2
        if idx > len(log):
            return              # an earlier message is still missing
        if idx == len(log):
            d.write(f'in/{job}', pickle.dumps(log + [inbound]))
            log = log + [inbound]
        elif log[idx] != inbound:
            raise Violation('retransmission-differs',
                            f'leader step {step} of {job}')
        rec = self.vol.get(job)
        if rec is None:
            rec = self.vol[job] = []
            saved = d.read(f'ckpt/{job}')
            if saved is not None and saved[0] == self.pp_kind():
                rec.extend(S.load(saved[1]))
                self.sim.log.probe('restored-checkpoint')
        try:
            while len(rec) <= idx:
                k = len(rec)
                self.steps += 1
                if k == 0:
                    st = self.pp.ping_pong_helper_init(
                        t.key_for(1), t.ctx_for(1), self.ap_of(job),
                        t.nonce_for(1, nonce), pub, share, log[0])
                else:
                    st = self.pp.ping_pong_helper_continued(
                        t.ctx_for(1), self.ap_of(job), rec[-1], log[k])
                rec.append(st)
        except Exception as e:
            raise Violation('ping-pong-raised', repr(e)[:200])
        st = rec[idx]
        self.saw(job, step + 1, st)
        if self.sim.ch.chance(300):
            d.write(f'ckpt/{job}', (self.pp_kind(), S.save(rec)),
                    sync=False)
        name = type(st).__name__
        if name == 'Rejected':
            self.note_refusal(job, ValueError('Rejected'))
            d.write(f'aborted/{job}', b'1')
            self.send(src, 'REJ', (src, self.j, job))
            return
        if self.fin(st):
            if d.read(f'out/{job}') is None:
                d.write(f'out/{job}', self.out_bytes(st))
        if name == 'Finished':
            self.send(src, 'DONE', (src, self.j, job))
        else:
            self.sim.pp_msgs.setdefault(job, {})[step + 1] = st.outbound
            self.send(src, 'PPR', (src, self.j, job, step + 1, st.outbound))


class PPLeader(PPNode, Leader):
    def boot(self):
        PPNode.boot(self)
        self.vol = {}
        self.sim.timer(self, self.TICK, self.tick)
        self.resume()

    def start_job(self, job):
        d = self.disk
        t = self.task
        rec = self.vol[job] = {'states': [], 'log': [], 'acked': set(),
                               'done': set()}
        if d.read(f'verdict/{job}'):
            self.push(job)
            return
        rep = self.report(job)
        saved = d.read(f'ckpt/{job}')
        log = pickle.loads(d.read(f'in/{job}') or pickle.dumps([]))
        if saved is not None and saved[0] == self.pp_kind():
            states = S.load(saved[1])
            if len(states) <= len(log) + 1:
                rec['states'] = states
                self.sim.log.probe('restored-checkpoint')
        rec['log'] = log
        try:
            while len(rec['states']) <= len(log):
                k = len(rec['states'])
                self.steps += 1
                if k == 0:
                    st = self.pp.ping_pong_leader_init(
                        t.key_for(0), t.ctx_for(0), self.ap_of(job),
                        t.nonce_for(0, rep.nonce), rep.pub_for(0),
                        rep.shares[0])
                else:
                    st = self.pp.ping_pong_leader_continued(
                        t.ctx_for(0), self.ap_of(job), rec['states'][-1],
                        log[k - 1])
                rec['states'].append(st)
        except Exception as e:
            raise Violation('ping-pong-raised', repr(e)[:200])
        self.settle(job)

    def settle(self, job):
        rec = self.vol[job]
        st = rec['states'][-1]
        self.saw(job, 2 * (len(rec['states']) - 1), st)
        if type(st).__name__ == 'Rejected':
            self.note_refusal(job, ValueError('Rejected'))
            self.reject(job)
            return
        if self.sim.ch.chance(300):
            self.disk.write(f'ckpt/{job}', (
                self.pp_kind(), S.save(rec['states'])), sync=False)
        if type(st).__name__ == 'Finished':
            rec['out'] = self.out_bytes(st)
            self.accept(job)
            return
        if type(st).__name__ == 'FinishedWithOutbound':
            rec['out'] = self.out_bytes(st)
        self.push(job)

    def accept(self, job):
        rec = self.vol[job]
        if not self.disk.read(f'verdict/{job}'):
            self.disk.write_many(self.commit_records(
                job, rec['out'], {f'verdict/{job}': b'acc'}))
        self.push(job)

    def push(self, job):
        if self.disk.read(f'verdict/{job}'):
            Leader.push(self, job)
            return
        rec = self.vol[job]
        if not rec['states']:
            return
        st = rec['states'][-1]
        if type(st).__name__ in ('Rejected', 'Finished'):
            self.settle_again(job)
            return
        step = 2 * (len(rec['states']) - 1)
        rep = self.report(job)
        self.sim.pp_msgs.setdefault(job, {})[step] = st.outbound
        self.send(agg_name(1), 'PP', (
            agg_name(1), job, self.disk.read(f'ap/{job[0]}'), rep.nonce,
            rep.pub_for(1), rep.shares[1], step, st.outbound))

    def settle_again(self, job):
        """After a failed write."""
        rec = self.vol[job]
        st = rec['states'][-1]
        if type(st).__name__ == 'Rejected':
            self.reject(job)
        else:
            rec['out'] = self.out_bytes(st)
            self.accept(job)

    def on_PPR(self, src, j, job, step, inbound):
        rec = self.vol.get(job)
        if rec is None or self.disk.read(f'verdict/{job}'):
            return
        idx = step // 2
        if idx < len(rec['log']):
            if rec['log'][idx] != inbound:
                raise Violation('retransmission-differs',
                                f'helper step {step} of {job}')
            return
        if idx > len(rec['log']) or len(rec['states']) != idx + 1:
            return
        self.disk.write(f'in/{job}', pickle.dumps(rec['log'] + [inbound]))
        rec['log'].append(inbound)
        t = self.task
        self.steps += 1
        try:
            st = self.pp.ping_pong_leader_continued(
                t.ctx_for(0), self.ap_of(job), rec['states'][-1], inbound)
        except Exception as e:
            raise Violation('ping-pong-raised', repr(e)[:200])
        rec['states'].append(st)
        self.settle(job)

    def on_DONE(self, src, j, job):
        rec = self.vol.get(job)
        if rec is None or self.disk.read(f'verdict/{job}'):
            return
        if rec['states'] and self.fin(rec['states'][-1]):
            rec['out'] = self.out_bytes(rec['states'][-1])
            self.accept(job)

    def on_VS(self, src, j, job, r, share):
        pass


# ------------------------------------------------------- clients, collector

class Client(Node):
    """Uploads all reports, retrying until the leader has stored them."""
    TICK = 80_000

    def __init__(self, reports):
        super().__init__('client')
        self.reports = reports
        self.pending = set(range(len(reports)))

    may_fail = False

    def boot(self):
        for i in self.sim.ch.shuffle(sorted(self.pending)):
            self.sim.timer(self, self.sim.ch.draw(100_000), self.upload, i)

    def upload(self, i):
        if i in self.pending:
            self.send('agg0', 'UPLOAD', ('agg0', i, self.reports[i]))
            self.sim.timer(self, self.TICK, self.upload, i)

    def on_message(self, src, kind, body):
        if kind == 'STORED' and body[0] == self.name:
            self.pending.discard(body[1])


class Collector(Node):
    """Runs the collections in sequence; `plan(k, results)` returns the k-th
    aggregation parameter (bytes) or None when finished."""
    TICK = 70_000
    may_fail = False

    def __init__(self, task, nreports, plan):
        super().__init__('collector')
        self.task, self.n, self.plan = task, nreports, plan
        self.k = 0
        self.ap = None
        self.accepted = None
        self.shares = {}
        self.results = []     # (ap, accepted, shares, result)
        self.finished = False

    def boot(self):
        self.impl = self.task.impl_for('collector')
        self.begin()
        self.tick()

    def begin(self):
        self.ap = self.plan(self.k, self.results)
        self.accepted, self.shares = None, {}
        if self.ap is None:
            self.finished = True

    def tick(self):
        if self.finished:
            return
        self.sim.timer(self, self.TICK, self.tick)
        if self.accepted is None:
            self.send('agg0', 'COLLECT', ('agg0', self.k, self.ap, self.n))
        else:
            for j in range(self.task.shares):
                if j not in self.shares:
                    nm = agg_name(j)
                    self.send(nm, 'AGG', (nm, self.k, self.ap))

    def on_message(self, src, kind, body):
        if body[0] != self.name or self.finished:
            return
        if kind == 'READY':
            _, k, acc = body
            if k == self.k and self.accepted is None:
                self.accepted = acc
                for j in range(self.task.shares):
                    nm = agg_name(j)
                    self.send(nm, 'AGG', (nm, self.k, self.ap))
        elif kind == 'AGGSHARE':
            _, j, k, share = body
            if k != self.k or self.accepted is None:
                return
            self.shares[j] = share
            if len(self.shares) == self.task.shares:
                self.combine()

    def combine(self):
        shares = [self.shares[j] for j in range(self.task.shares)]
        n = len(self.accepted)
        result = self.impl.unshard(self.ap, shares, n) if n else None
        self.results.append((self.ap, self.accepted, shares, result))
        self.sim.log.ev('collector', 'result', f'{self.k} n={n}')
        self.k += 1
        self.begin()


def run_deployment(sim, task, reports, plan):
    """Builds the nodes and runs to completion.  Returns the collector."""
    sim.refusals = {}
    sim.pp_msgs = {}
    sim.pp_states = {}
    if task.topology == 'pingpong':
        if not hasattr(task, 'pp_for'):
            task.pp_for = lambda j: task.cfg.make_pp()
        nodes = [PPLeader(task, 0), PPHelper(task, 1)]
    else:
        nodes = [Leader(task, 0)] + [Helper(task, j)
                                     for j in range(1, task.shares)]
    for nd in nodes:
        sim.add(nd)
    client = sim.add(Client(reports))
    coll = sim.add(Collector(task, len(reports), plan))
    sim.aggs = nodes
    sim.client = client
    sim.start()
    ok = sim.run(lambda: coll.finished)
    check(ok, 'liveness',
          f'not finished after faults stopped: {sim.events} events, '
          f'collection {coll.k}, uploads pending {len(client.pending)}')
    return coll
