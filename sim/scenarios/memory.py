"""Memory backend used by several tasks through the Backend interface.

Tasks of one process register events of several servers (also while callbacks
of previous registrations are running), query and ask for last event ids.
Each answer is compared with the documented semantics applied to the events
registered so far.
"""

import asyncio
import itertools

from .. import core
from .. import model
from ..core import NS, ns
from ..evsys import pick
from . import backend as bscn


REAL = ['hat.event.backends.memory', 'hat.event.common', 'hat.aio']
STUB = ['event loop', 'clock', 'client code']

BOUND = 20 * NS


def generate(rng, prop, tier):
    n_ops = pick(rng, [10, 30, 80] if tier == 'quick' else [30, 100, 200])
    horizon = pick(rng, [0.01, 1, 5])
    n_servers = pick(rng, [1, 2, 2, 3])
    ts_range = pick(rng, [2, 5, 50])
    monotonic = rng.random() < 0.5
    ops = []
    for _ in range(n_ops):
        op = {'t': round(rng.random() * horizon, 5)}
        x = rng.random()
        if x < 0.4:
            op['k'] = 'register'
            op['s'] = 1 + int(rng.random() * n_servers)
            op['events'] = [
                [int(rng.random() * len(bscn.TYPES)),
                 int(rng.random() * ts_range),
                 pick(rng, [None, None, int(rng.random() * ts_range)]),
                 int(rng.random() * len(bscn.PAYLOADS))]
                for _ in range(pick(rng, [1, 1, 2, 3, 6]))]
            op['session'] = rng.random() < 0.8
        elif x < 0.5:
            op['k'] = 'last'
            op['s'] = 1 + int(rng.random() * (n_servers + 1))
        elif x < 0.55:
            op['k'] = 'flush'
        else:
            op['k'] = 'query'
            op['q'] = gen_query(rng, n_servers, ts_range)
            op['pages'] = rng.random() < 0.5
        ops.append(op)
    if rng.random() < 0.5:
        centers = [round(rng.random() * horizon, 4) for _ in range(2)]
        for op in ops:
            if rng.random() < 0.7:
                op['t'] = round(pick(rng, centers) + rng.random() * 0.0005, 6)
    ops.sort(key=lambda o: o['t'])
    stalls = [[round(rng.random() * horizon, 4), pick(rng, [0.01, 1])]
              for _ in range(pick(rng, [0, 0, 1, 2]))]
    return {'scenario': 'memory', 'prop': prop, 'ops': ops,
            'monotonic': monotonic, 'horizon': horizon, 'stalls': stalls,
            'reg_cb': pick(rng, [None, 'sync', 'async', 'async']),
            'flush_cb': pick(rng, [None, 'sync', 'async', 'async']),
            'cb_delay': pick(rng, [0, 0, 0.0001, 0.01, 0.5]),
            'close': rng.random() < 0.3, 'world': {}}


def gen_query(rng, n_servers, ts_range):
    kind = pick(rng, ['latest', 'timeseries', 'timeseries', 'timeseries',
                      'server', 'server'])
    q = {'kind': kind}
    if kind in ('latest', 'timeseries'):
        q['types'] = pick(rng, [None] + bscn.SUBS + [[]])
    if kind == 'timeseries':
        for k in ('t_from', 't_to', 'source_t_from', 'source_t_to'):
            if rng.random() < 0.25:
                q[k] = int(rng.random() * ts_range)
        q['order'] = pick(rng, ['ASCENDING', 'DESCENDING'])
        q['order_by'] = pick(rng, ['TIMESTAMP', 'SOURCE_TIMESTAMP'])
    if kind == 'server':
        q['s'] = 1 + int(rng.random() * n_servers)
        q['persisted'] = rng.random() < 0.5
    if kind != 'latest':
        q['max'] = pick(rng, [None, None, 1, 2, 3, 5, 10, 0])
        q['last'] = pick(rng, [None, None, 'known', 'known', 'unknown'])
    return q


def run(world, plan, ctx):
    Driver(world, plan, ctx).run()


class Driver:

    def __init__(self, world, plan, ctx):
        from hat.event import common
        self.c = common
        self.w = world
        self.plan = plan
        self.ctx = ctx
        self.node = world.add_node('n', '10.0.0.1')
        self.proc = self.node.spawn('p')
        self.backend = None
        self.ids = {}
        self.events = []            # in order of registration
        self.regs = []              # [batch, returned, reg cb, flushed cb]
        self.pending = []
        self.stall_end = 0
        self.last_ts = {}
        self.payloads = [bscn.make_payload(common, p) for p in bscn.PAYLOADS]

    def run(self):
        w = self.w
        self.proc.start(self.main)
        w.run(ns(0.001))
        for op in self.plan['ops']:
            w.at(ns(0.002 + op['t']), self.start, op)
        for t, d in self.plan['stalls']:
            w.at(ns(0.002 + t), self.stall, d)
        w.run(ns(self.plan['horizon'] + 0.01))
        w.run(max(w.now, self.stall_end) + BOUND)
        if w.stopped:
            return
        self.check_pending()
        for k in ('latest', 'timeseries'):
            self.start({'k': 'query', 'pages': True, 'q': {
                'kind': k, 'types': None, 'order': 'ASCENDING',
                'order_by': 'TIMESTAMP', 'max': 3}})
        for s in list(self.ids):
            self.start({'k': 'last', 's': s})
        w.run(w.now + NS)
        if w.stopped:
            return
        if self.plan['close']:
            self.proc.start(self.close)
            w.run(w.now + BOUND)
            if not w.stopped:
                self.ctx.check('C28', 'close', self.closed,
                               'backend is not closed')
        self.check_pending()
        for reg in self.regs:
            for i, name in ((2, 'reg_cb'), (3, 'flush_cb')):
                if self.plan[name]:
                    self.ctx.check('C28', name, reg[i] == 1,
                                   lambda: f'{reg[0][0].id}: announced '
                                           f'{reg[i]} times ({name})')

    closed = False

    async def close(self):
        await self.backend.async_close()
        self.closed = True

    def stall(self, d):
        self.proc.stall(ns(d))
        self.stall_end = max(self.stall_end, self.w.now) + ns(d)

    def check_pending(self):
        for op in self.pending:
            self.ctx.violate('C28', 'pending', f'{op} has not ended')

    async def main(self):
        from hat import aio
        from hat.event.backends import memory

        def cb(name, i):
            mode = self.plan[name]
            if mode is None:
                return
            d = self.plan['cb_delay']

            def on(events):
                events = list(events)
                reg = next((r for r in self.regs if r[0] == events), None)
                self.ctx.check('C28', name, reg is not None and not reg[i] and
                               not reg[1] and (i != 3 or reg[2] or
                                               not self.plan['reg_cb']),
                               lambda: f'{name}: unexpected {events[:3]}')
                if reg:
                    reg[i] += 1
                self.w.trace(name, str(events[0].id))
                if mode == 'async':
                    return asyncio.sleep(d)

            return on

        self.backend = await aio.call(memory.info.create, {},
                                      cb('reg_cb', 2), cb('flush_cb', 3))

    def start(self, op):
        self.proc.start(getattr(self, f'_{op["k"]}'), op)

    def make_events(self, op):
        c = self.c
        s = op['s']
        session, instance = self.ids.get(s, (0, 0))
        if op['session'] or not session:
            session, instance = session + 1, 0
        events = []
        for t, ts, st, p in op['events']:
            instance += 1
            if self.plan['monotonic']:
                ts = max(ts, self.last_ts.get(s, 0))
                self.last_ts[s] = ts
            events.append(c.Event(
                id=c.EventId(s, session, instance), type=bscn.TYPES[t],
                timestamp=c.Timestamp(ts // 2, ts % 2 * 500000),
                source_timestamp=None if st is None else
                c.Timestamp(st // 2, st % 2 * 500000),
                payload=self.payloads[p]))
        self.ids[s] = session, instance
        return events

    async def _register(self, op):
        events = self.make_events(op)
        reg = [events, False, 0, 0]
        self.regs.append(reg)
        self.pending.append(op)
        self.w.trace('register', str(events[0].id), len(events))
        try:
            result = await self.backend.register(list(events))
        except Exception as e:
            self.ctx.violate('C28', 'register', f'{e!r}')
            return
        finally:
            self.pending.remove(op)
        reg[1] = True
        self.ctx.evals['C28'] += 1
        self.ctx.check('C28', 'register-result', result is not None and
                       list(result) == events,
                       lambda: f'{result} instead of {events}')

    async def _flush(self, op):
        self.pending.append(op)
        await self.backend.flush()
        self.pending.remove(op)

    def candidates(self, before):
        """Possible sequences of registered events, given numbers of
        registrations returned before request and started until response"""
        out = []
        for n in range(len(self.regs), before - 1, -1):
            out.append(list(itertools.chain.from_iterable(
                r[0] for r in self.regs[:n])))
        return out

    def before(self):
        """Registrations which have to be visible"""
        return max((i + 1 for i, r in enumerate(self.regs) if r[1]),
                   default=0)

    def judge(self, fn, before):
        error = None
        for events in self.candidates(before):
            try:
                return fn(events)
            except model.Mismatch as e:
                error = error or e
        self.ctx.violate('C28', 'result', str(error))

    async def _last(self, op):
        before = self.before()
        self.pending.append(op)
        try:
            result = await self.backend.get_last_event_id(op['s'])
        except Exception as e:
            self.ctx.violate('C28', 'last', f'{e!r}')
            return
        finally:
            self.pending.remove(op)
        self.ctx.evals['C28'] += 1
        self.w.trace('last', str(result))

        def check(events):
            want = max((e.id for e in events if e.id.server == op['s']),
                       default=self.c.EventId(op['s'], 0, 0))
            if result != want:
                raise model.Mismatch(f'last event id {result} instead of '
                                     f'{want}')

        self.judge(check, before)

    def params(self, q, last=None):
        c = self.c

        def ts(name):
            v = q.get(name)
            return None if v is None else c.Timestamp(v // 2, v % 2 * 500000)

        types = q.get('types')
        if types is not None:
            types = [tuple(t) for t in types]
        if q['kind'] == 'latest':
            return c.QueryLatestParams(types)
        if last is None and q.get('last'):
            known = list(itertools.chain.from_iterable(
                r[0] for r in self.regs))
            if q['last'] == 'known' and known:
                last = known[int(self.w.rng('last').random() *
                                 len(known))].id
            else:
                last = c.EventId(1, int(self.w.rng('last').random() * 5), 77)
        if q['kind'] == 'server':
            return c.QueryServerParams(q['s'], q['persisted'], q['max'], last)
        return c.QueryTimeseriesParams(
            types, ts('t_from'), ts('t_to'), ts('source_t_from'),
            ts('source_t_to'), c.Order[q['order']], c.OrderBy[q['order_by']],
            q['max'], last)

    async def _query(self, op):
        q = op['q']
        last = None
        for _ in range(30):
            params = self.params(q, last)
            before = self.before()
            self.pending.append(op)
            self.w.trace('query', q['kind'])
            try:
                result = await self.backend.query(params)
            except Exception as e:
                self.ctx.violate('C28', 'query', f'{params}: {e!r}')
                return
            finally:
                self.pending.remove(op)
            self.ctx.evals['C28'] += 1
            self.w.probes[f'memory_{q["kind"]}'] += 1
            events = list(result.events)
            check = getattr(self, f'check_{q["kind"]}')
            self.judge(lambda known: check(params, events,
                                           result.more_follows, known), before)
            if self.w.stopped or not (op['pages'] and result.more_follows and
                                      events):
                return
            last = events[-1].id
            if self.w.rng('page').random() < 0.3:
                await asyncio.sleep(0)

    def check_latest(self, q, got, more, known):
        if more:
            raise model.Mismatch('more follows set on latest query')
        by_type = {}
        for i, e in enumerate(known):
            if q.event_types is None or model.any_matches(e.type,
                                                          q.event_types):
                by_type.setdefault(e.type, []).append((i, e))
        if (len(got) != len(by_type) or
                {e.type for e in got} != set(by_type)):
            raise model.Mismatch(f'{q}: got {model.fmt(got)}, expected types '
                                 f'{list(by_type)}')
        for e in got:
            items = by_type[e.type]
            i = next((i for i, k in items if k == e), None)
            if i is None:
                raise model.Mismatch(f'{q}: unknown {model.fmt([e])}')

            def beats(j, a, i, b):
                if (a.id.server != b.id.server and
                        a.timestamp == b.timestamp):
                    return j > i
                return model.natural_gt(a, b)

            # natural order isn't transitive when clocks go back
            top = [k for j, k in items
                   if not any(beats(x, y, j, k) for x, y in items
                              if x != j)]
            if top and e not in top:
                raise model.Mismatch(f'{q}: got {model.fmt([e])}, expected '
                                     f'{model.fmt(top)}')

    def check_timeseries(self, q, got, more, known):
        source = q.order_by.name == 'SOURCE_TIMESTAMP'
        desc = q.order.name == 'DESCENDING'

        class P:

            def time(self, e):
                return e.source_timestamp if source else e.timestamp

        p = P()
        expected = [e for e in known if not source or
                    e.source_timestamp is not None]
        expected = model.filter_timeseries(p, expected, q)
        expected.sort(key=lambda e: (p.time(e), e.id), reverse=desc)
        limit = len(expected) if q.max_results is None else q.max_results
        if q.last_event_id is None:
            want = expected[:limit]
            if not (model.tie_equal(p, got, want, desc) or
                    model._tie_cut_equal(p, got, expected, limit, desc)):
                raise model.Mismatch(f'{q}: got {model.fmt(got)}, expected '
                                     f'{model.fmt(want)}')
            if more != (len(expected) > limit):
                raise model.Mismatch(f'{q}: more follows {more} with '
                                     f'{len(expected)} events')
            return
        last = next((e for e in expected if e.id == q.last_event_id), None)
        if last is None:
            if got or more:
                raise model.Mismatch(f'{q}: got {model.fmt(got)} after '
                                     f'event which is not part of result')
            return
        # events of other servers with the same time may be on both sides
        t = p.time(last)

        def side(e):
            if p.time(e) != t:
                return 1 if (p.time(e) > t) != desc else -1
            if e.id.server == last.id.server:
                return (0 if e.id == last.id else
                        1 if (e.id > last.id) != desc else -1)
            return None

        must = [e for e in expected if side(e) == 1]
        may = [e for e in expected if side(e) in (1, None)]
        prev = None
        servers = {}
        for e in got:
            if e not in may:
                raise model.Mismatch(f'{q}: unexpected {model.fmt([e])}')
            if prev is not None and (p.time(e) > p.time(prev) if desc else
                                     p.time(e) < p.time(prev)):
                raise model.Mismatch(f'{q}: wrong order {model.fmt(got)}')
            key = e.id.server, p.time(e)
            if key in servers and (e.id >= servers[key] if desc else
                                   e.id <= servers[key]):
                raise model.Mismatch(f'{q}: wrong order {model.fmt(got)}')
            servers[key] = e.id
            prev = e
        if len(got) > limit:
            raise model.Mismatch(f'{q}: {len(got)} results')
        if more:
            if len(got) != limit or len(may) <= limit:
                raise model.Mismatch(f'{q}: more follows with {len(got)} of '
                                     f'{len(may)} events')
            must = [e for e in must if got and
                    p.time(e) != p.time(got[-1]) and
                    (p.time(e) > p.time(got[-1])) == desc]
        missing = [e for e in must if e not in got]
        if missing:
            raise model.Mismatch(f'{q}: missing {model.fmt(missing)}, got '
                                 f'{model.fmt(got)}, more {more}')

    def check_server(self, q, got, more, known):
        want = sorted((e for e in known if e.id.server == q.server_id and
                       (q.last_event_id is None or
                        e.id > q.last_event_id)), key=lambda e: e.id)
        limit = len(want) if q.max_results is None else q.max_results
        if got != want[:limit] or more != (len(want) > limit):
            raise model.Mismatch(f'{q}: got {model.fmt(got)}, more {more}, '
                                 f'expected {model.fmt(want[:limit])}')
