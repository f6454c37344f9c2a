"""Inadmissible aggregation parameters are recognised over any history."""
import copy

from . import popgen as PG
from .common import C, FaultPlan, REAL, STUB, Sim, check, describe
from ..kernel import Node

RUNS = {'quick': 20000, 'thorough': 160000}
RULE = 'One decision per answer given to a proposed parameter.'
ASSUMPTIONS = ['Poplar1 histories contain only parameters that were '
               'admissible when they were used, as the document requires; '
               'Prio3 histories may be any.']
MUST_REACH = ['admissible', 'repeat', 'shallower', 'same-level', 'duplicate',
              'unsorted', 'stranger', 'grandchild-of-dropped', 'prio3-first',
              'prio3-again', 'prio3-overridden', 'asked-again', 'reloaded',
              'crash', 'drop',
              'dup', 'delay', 'disk_error', 'long-history', 'many-prefixes',
              'longer-history', 'hundreds-of-prefixes']


def prefix(i):
    return [i % 6]


class Gate(Node):
    """An aggregator that admits parameters per batch of reports, keeping the
    history on disk in encoded form."""

    def __init__(self, name, cfg, ref, log):
        super().__init__(name)
        self.cfg, self.ref, self.log = cfg, ref, log
        self.vol = {}

    def boot(self):
        self.v = self.cfg.make()
        self.vol = {}

    wipe = boot

    def history(self, batch):
        # one record, so that a lost write leaves an earlier history
        return list(self.disk.read(f'history/{batch}') or ())

    def on_message(self, src, kind, body):
        if kind != 'ASK' or body[0] != self.name:
            return
        _, batch, seq, ap = body
        enc = self.history(batch)
        if seq < len(enc):
            self.log.probe('asked-again')
            self.send(src, 'YES' if enc[seq] == ap else 'NO',
                      (src, self.name, batch, seq, ap))
            return
        if batch not in self.vol:
            self.vol[batch] = [self.v.decode_agg_param(a) for a in enc]
            if enc:
                self.log.probe('reloaded')
        hist = self.vol[batch]
        param = self.v.decode_agg_param(ap)
        want = self.want(ap, enc)
        again = copy.deepcopy((param, hist))
        got = self.v.is_valid(param, hist)
        what = f'{self.cfg.desc()} history {len(hist)}'
        check(bool(got) == want, 'wrong-answer',
              f'{what}: said {got}, rules say {want}')
        check((param, hist) == again, 'arguments-changed', what)
        stored = self.cfg.make().is_valid(
            self.v.decode_agg_param(self.v.encode_agg_param(param)),
            [self.v.decode_agg_param(self.v.encode_agg_param(h))
             for h in hist])
        check(bool(stored) == want, 'answer-changes-when-stored', what)
        check(bool(self.v.is_valid(param, hist)) == want,
              'answer-changes-when-repeated', what)
        self.log.ok(3)
        over = not got and not self.cfg.poplar and self.sim.ch.chance(400)
        if over:
            # used all the same: an operator's override
            self.log.probe('prio3-overridden')
        if got or over:
            self.disk.write(f'history/{batch}', tuple(enc) + (ap,),
                            sync=self.sim.ch.chance(700))
            hist.append(param)
            if len(hist) > 3:
                self.log.probe('long-history')
            if len(hist) > 8:
                self.log.probe('longer-history')
        self.send(src, 'YES' if got else 'NO',
                  (src, self.name, batch, seq, ap))

    def want(self, ap, enc):
        if not self.cfg.poplar:
            self.log.probe('prio3-again' if enc else 'prio3-first')
            return not enc
        dec = self.ref.decode_param
        return self.ref.is_valid(dec(ap), [dec(a) for a in enc])


class Asker(Node):
    may_fail = False
    TICK = 40_000

    def __init__(self, cfg, gates, batches, ch, log):
        super().__init__('collector')
        self.cfg, self.gates, self.ch, self.log = cfg, gates, ch, log
        # per gate and batch: what was admitted, proposals left
        self.long = cfg.poplar and cfg.bits > 9 and ch.chance(200)
        self.state = {(g, b): [[], ch.between(10, 40) if self.long else
                               ch.between(2, 9)]
                      for g in gates for b in range(batches)}
        self.open = {}
        self.alphas = [cfg.gen_meas(ch) for _ in range(3)] \
            if cfg.poplar else []

    def boot(self):
        for k in self.state:
            self.sim.timer(self, self.ch.draw(20_000), self.push, k)

    def push(self, k):
        hist, left = self.state[k]
        if k not in self.open:
            if left == 0:
                return
            self.open[k] = (len(hist), self.propose(hist))
        seq, ap = self.open[k]
        self.send(k[0], 'ASK', (k[0], k[1], seq, ap))
        self.sim.timer(self, self.TICK, self.push, k)

    def on_message(self, src, kind, body):
        if kind == 'ASK' or body[0] != self.name:
            return
        _, gate, batch, seq, ap = body
        k = (gate, batch)
        if self.open.get(k) != (seq, ap):
            return
        del self.open[k]
        if kind == 'YES':
            self.state[k][0].append(ap)
        self.state[k][1] -= 1
        self.push(k)

    def done(self):
        return not self.open and all(v[1] == 0 for v in self.state.values())

    def propose(self, hist):
        ch, cfg = self.ch, self.cfg
        if not cfg.poplar:
            return b''
        ref = cfg.ref()
        hist = [ref.decode_param(a) for a in hist]
        most = ch.pick([4, 12, 60])
        if ch.chance(30):
            most = ch.pick([150, 300])
        if hist and hist[-1][0] == cfg.bits - 1 or hist and ch.chance(250):
            # nothing deeper left, or a step back
            how = ch.draw(3)
            if how == 0:
                self.log.probe('repeat')
                return cfg.param(*ch.pick(hist))
            top = hist[-1][0]
            lv = top if how == 1 else ch.draw(top + 1)
            self.log.probe('same-level' if lv == top else 'shallower')
            pres = sorted({tuple(q[:lv + 1]) for q in hist[-1][1]})
            return cfg.param(lv, tuple(pres[:1 + ch.draw(len(pres))]))
        if not hist:
            lv = cfg.gen_level(ch)
            if lv == cfg.bits - 1 and ch.chance(700):
                lv = ch.draw(cfg.bits)
            if self.long:
                lv = ch.draw(2)
            pres = list(cfg.gen_prefixes(ch, lv, self.alphas, most))
        else:
            top, last = hist[-1]
            lv = top + 1 + ch.draw(min(3, cfg.bits - 1 - top)) \
                if ch.draw(3) else top + 1 + ch.draw(cfg.bits - 1 - top)
            if self.long:
                lv = top + 1 + (ch.draw(3) == 2 and top + 2 < cfg.bits)
            pres = sorted({PG.extend_prefix(ch, ch.pick(last), lv,
                                            self.alphas)
                           for _ in range(ch.between(1, most))})
        if len(pres) < most > 100 and 6 < lv < 60:
            # hundreds of candidates
            base = ch.pick(hist[-1][1]) if hist else ()
            free = lv + 1 - len(base)
            if free > 6:
                pres = sorted({tuple(base) + tuple(
                    bool((k >> i) & 1) for i in range(free))
                    for k in range(min(most, 1 << free))} | set(pres))
        if len(pres) > 16:
            self.log.probe('many-prefixes')
        if len(pres) > 100:
            self.log.probe('hundreds-of-prefixes')
        if ch.chance(450):
            return cfg.param(lv, tuple(self.spoil(lv, pres, hist)))
        self.log.probe('admissible')
        return cfg.param(lv, tuple(pres))

    def spoil(self, lv, pres, hist):
        ch = self.ch
        how = ch.draw(4)
        pres = list(pres)
        if how == 0:
            self.log.probe('duplicate')
            k = ch.draw(len(pres))
            pres.insert(ch.pick([k, ch.draw(len(pres) + 1)]), pres[k])
        elif how == 1 and len(pres) > 1:
            self.log.probe('unsorted')
            k = ch.pick([ch.draw(len(pres) - 1), len(pres) - 2])
            if ch.draw(2):
                pres[k], pres[k + 1] = pres[k + 1], pres[k]
            else:
                pres.append(pres.pop(ch.draw(len(pres) - 1)))
        elif hist:
            top, last = hist[-1]
            k = ch.draw(len(pres))
            q = list(pres[k])
            if how == 2 or len(hist) < 2:
                self.log.probe('stranger')
                q[ch.pick([top, 0, ch.draw(top + 1)])] ^= True
            else:
                # extends something of the last parameter but one only
                self.log.probe('grandchild-of-dropped')
                t2, prev = hist[-2]
                base = ch.pick(prev)
                q[:t2 + 1] = base
                q[t2 + 1:top + 1] = [bool(ch.draw(2))
                                     for _ in range(top - t2)]
            pres = sorted(set(pres[:k] + pres[k + 1:]) | {tuple(q)})
        return pres


def run(ch, log):
    k = ch.draw(6)
    if k == 5:
        cfg = C.gen_prio3(ch, big=False, cap=400)
    else:
        cfg = C.gen_poplar(ch)
    describe(log, cfg, b'')
    ref = cfg.ref()
    sim = Sim(ch, log, FaultPlan(ch, force_none=ch.chance(150)))
    gates = [f'agg{j}' for j in range(ch.between(1, 2))]
    for g in gates:
        sim.add(Gate(g, cfg, ref, log))
    asker = sim.add(Asker(cfg, gates, ch.between(1, 2), ch, log))
    sim.start()
    ok = sim.run(asker.done)
    check(ok, 'liveness', f'{len(asker.open)} open')
