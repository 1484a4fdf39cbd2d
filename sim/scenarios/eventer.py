"""Eventer server with several clients, at the level of `hat.event.eventer`.

The application behind the server (callbacks, status changes and
notifications, also with acknowledgement) is scripted; both the listening side
and the connecting side run the real code.
"""

import asyncio
import itertools

from .. import core
from ..core import NS, ns
from ..evsys import pick, LEGAL
from . import cancel_on_input, chatter_queue, gen_queue, shift_ids


REAL = ['hat.event.eventer (client and server)', 'hat.event.common',
        'hat.aio', 'hat.drivers (chatter, tcp)', 'hat.sbs']
STUB = ['event loop', 'clock', 'TCP', 'application behind eventer server',
        'client applications']

PORT = 23012

TYPES = [['a'], ['a', 'x'], ['a', 'y'], ['b', 'x'], ['b', 'x', '1'], ['c']]
SUBS = [[['*']], [['*']], [['*']], [['a', '*']], [['b', '?']],
        [['a', '?'], ['c']], [['b', '*']], [], [['?']]]

CYCLE = ['STANDBY', 'STARTING', 'OPERATIONAL', 'STOPPING']

BOUND = 30 * NS
FINAL = 150 * NS


def delay(rng):
    return pick(rng, [0, 0, 0, 0.001, 0.01, 0.2, round(rng.random() * 3, 3)])


def generate(rng, prop, tier):
    horizon = pick(rng, [2, 8, 30])
    n_cl = pick(rng, [1, 2, 3, 4, 6])
    clients = []
    for i in range(n_cl):
        clients.append({
            'name': f'c{i}', 'subs': pick(rng, SUBS),
            'server_id': pick(rng, [None, None, 1, 2]),
            'persisted': rng.random() < 0.3,
            'ecb': [delay(rng) for _ in range(3)]
            if rng.random() < 0.7 else [0],
            'scb': delay(rng) if rng.random() < 0.3 else 0,
            'async_cb': rng.random() < 0.5,
            'connect': delay(rng) if rng.random() < 0.5 else 0,
            'disconnect': delay(rng) if rng.random() < 0.2 else 0,
            'token': pick(rng, [None, 't', 't', 'bad'])
            if rng.random() < 0.3 else None,
            'stays': rng.random() < 0.3,
            'eager': pick(rng, [None, None, None, 'req', 'kick', 'close']),
            'retry': pick(rng, [0.01, 0.3, 2]),
            'start': round(rng.random() * horizon * 0.5, 3)
            if rng.random() < 0.4 else 0})
    ops = []
    n_ops = pick(rng, [10, 30, 80] if tier == 'quick' else [20, 60, 150])
    weights = {'C16': [5, 1, 2, 1], 'C11': [6, 1, 2, 1], 'C13': [2, 5, 2, 2],
               'C12': [2, 1, 7, 2]}.get(prop, [3, 2, 4, 1])
    kinds = sum(([k] * n for k, n in zip(['n', 's', 'r', 'c'], weights)), [])
    for _ in range(n_ops):
        k = pick(rng, kinds)
        t = round(rng.random() * horizon, 4)
        if k == 'n':
            n = pick(rng, [1, 1, 2, 4, 30 if rng.random() < 0.2 else 3])
            op = {'k': 'notify', 'persisted': rng.random() < 0.3,
                  'ack': rng.random() < (0.8 if prop == 'C16' else 0.4),
                  'events': [[pick(rng, TYPES), pick(rng, [1, 1, 2, 3])]
                             for _ in range(n)],
                  'pad': pick(rng, [0, 0, 0, 2000])}
        elif k == 's':
            op = {'k': 'status', 'stop': rng.random() < 0.2}
        elif k == 'r':
            op = {'k': 'req', 'c': int(rng.random() * n_cl),
                  'what': pick(rng, ['reg', 'reg', 'reg0', 'query']),
                  'n': pick(rng, [1, 1, 2, 5]), 'd': delay(rng),
                  'fail': rng.random() < 0.2}
            if rng.random() < 0.1:
                op['cancel'] = delay(rng)
            elif rng.random() < (0.4 if prop == 'C12' else 0.1):
                op['cancel_step'] = int(rng.random() * 25)
            if rng.random() < 0.01:
                op['raise'] = True
        else:
            op = {'k': 'close', 'c': int(rng.random() * n_cl)}
        op['t'] = t
        ops.append(op)
    if rng.random() < 0.5:
        centers = [round(rng.random() * horizon, 4) for _ in range(3)]
        for op in ops:
            if rng.random() < 0.7:
                op['t'] = round(pick(rng, centers) + rng.random() * 0.05, 5)
    ops.sort(key=lambda o: o['t'])
    faults = []
    if rng.random() < 0.6:
        for _ in range(pick(rng, [1, 2, 4])):
            f = {'t': round(rng.random() * horizon, 4),
                 'f': pick(rng, ['reset', 'crash', 'part', 'stall', 'cstall',
                                 'slow', 'reset']),
                 'c': int(rng.random() * n_cl),
                 'power': rng.random() < 0.4,
                 'd': pick(rng, [0.05, 1, 20, 90])}
            if f['f'] == 'stall':
                f['d'] = pick(rng, [0.05, 1, 5])
            faults.append(f)
    faults.sort(key=lambda f: f['t'])
    net = {'lat_max': pick(rng, [0.0005, 0.005, 0.05]),
           'spike_p': pick(rng, [0, 0.02, 0.1]), 'spike_max': 0.8,
           'seg_p': pick(rng, [0, 0.1, 0.5]),
           'window': pick(rng, [2048, 65536, 65536])}
    return shift_ids(rng, {
            'scenario': 'eventer', 'prop': prop, 'clients': clients,
            'ops': ops, 'faults': faults, 'world': {'net': net},
            'horizon': horizon, 'queue': gen_queue(rng)})


def run(world, plan, ctx):
    with chatter_queue(plan.get('queue')):
        Driver(world, plan, ctx).run()


class Call:
    """One `notify_events` call"""

    def __init__(self, n, op, events):
        self.n = n
        self.op = op
        self.events = events
        self.recips = {}        # Conn -> events
        self.returned = None
        self.t = None
        self.seq = None
        self.t_ready = None

    def __repr__(self):
        return (f'<notify {self.n} ack={self.op["ack"]} '
                f'{len(self.events)} events>')


class Conn:

    def __init__(self, cl, name):
        self.cl = cl
        self.name = name
        self.t_call = cl.drv.w.now
        self.call_seq = cl.drv.seq()
        self.ret_seq = None
        self.client = None
        self.hist = []
        self.info = None            # given to connected_cb
        self.srv_conn = 0
        self.srv_disc = 0
        self.t_disc = None
        self.t_closed = None
        self.got = {}               # call number -> seq
        self.done = {}              # call number -> seq
        self.last = 0
        self.refused = False
        self.closing = False
        self.crashed = False
        self.raised = False
        self.reqs = []
        self.arrived = 0

    def __repr__(self):
        return self.name


class Cl:

    def __init__(self, drv, spec, host):
        self.drv = drv
        self.w = drv.w
        self.ctx = drv.ctx
        self.spec = spec
        self.node = self.w.add_node(spec['name'], host)
        self.conns = []
        self.conn = None
        self.n = 0
        self.proc = None
        self.stall_end = 0

    def start(self):
        if self.proc and self.proc.alive:
            return
        self.n += 1
        self.proc = self.node.spawn(f'c{self.n}')
        self.proc.start(self.main)

    def crash(self, power):
        if not self.proc or not self.proc.alive:
            return
        self.w.faults['crash_power' if power else 'crash_kill'] += 1
        self.node.crash(power)
        for c in self.conns:
            c.crashed = True
        for o in list(self.drv.open_ops):
            if o['cl'] is self:
                self.drv.open_ops.remove(o)
        self.conn = None
        self.w.after(ns(1), self.start)

    async def main(self):
        while True:
            await self.connect()
            if self.drv.closing:
                return
            await asyncio.sleep(self.spec['retry']
                                if self.spec['token'] != 'bad' else
                                self.spec['retry'] + 1)

    async def connect(self):
        from hat.drivers import tcp
        from hat.event import eventer
        drv = self.drv
        spec = self.spec
        conn = Conn(self, f'{spec["name"]}-{len(self.conns)}')
        self.conns.append(conn)
        drv.conns[conn.name] = conn

        def on_status(client, status):
            drv.on_status(conn, status.name)
            if spec['scb']:
                return asyncio.sleep(spec['scb'])

        def on_events(client, events):
            call = drv.on_events(conn, list(events))
            d = spec['ecb'][call.n % len(spec['ecb'])] if call else 0
            if d or spec['async_cb']:
                return done(call, d)
            drv.on_events_done(conn, call)

        async def done(call, d):
            await asyncio.sleep(d)
            drv.on_events_done(conn, call)

        op = drv.open_op(self, conn, 'connect')
        try:
            client = await eventer.connect(
                tcp.Address(drv.node.host, PORT), conn.name,
                client_token=spec['token'],
                subscriptions=[tuple(i) for i in spec['subs']],
                server_id=spec['server_id'], persisted=spec['persisted'],
                status_cb=on_status, events_cb=on_events)
        except eventer.EventerInitError as e:
            conn.refused = True
            conn.closing = True
            conn.t_closed = self.w.now
            self.w.faults['refused'] += 1
            self.ctx.check('C15', 'refused-valid', spec['token'] == 'bad',
                           lambda: f'{conn}: {e}')
            return
        except Exception as e:
            conn.closing = True
            conn.t_closed = self.w.now
            self.ctx.check('C12', 'connect-error', drv.is_conn_error(e),
                           lambda: f'{conn}: {e!r}')
            return
        finally:
            drv.close_op(op)
        conn.client = client
        conn.ret_seq = drv.seq()
        self.ctx.check('C15', 'accepted', spec['token'] != 'bad',
                       lambda: f'{conn} accepted')
        status = client.status.name
        if not conn.hist:
            conn.hist.append(status)
        drv.check_hist(conn)
        self.w.trace('connected', conn.name, status)
        self.conn = conn
        if spec['eager']:
            # request in the same step in which connect returned
            op = {'k': 'req', 'd': 0, 'fail': False, 'n': 1,
                  'what': pick(self.w.rng('eager'), ['reg', 'query'])}
            asyncio.Task(core.guard(drv.request(self, conn, op)),
                         loop=asyncio.get_running_loop(), eager_start=True)
            if spec['eager'] == 'close' and len(self.conns) % 2:
                conn.closing = True
                client.close()
        await client.wait_closing()
        if (drv.quiet and spec['eager'] != 'kick' and
                not self.w.stopped):
            self.ctx.check(['C12', 'C25'], 'closed-without-reason',
                           conn.closing or drv.closing,
                           lambda: f'{conn}: connection closed itself')
        conn.closing = True
        conn.t_closed = self.w.now
        if self.conn is conn:
            self.conn = None
        self.w.trace('closed', conn.name)


class Driver:

    def __init__(self, world, plan, ctx):
        from hat.event import common
        self.common = common
        self.w = world
        self.plan = plan
        self.ctx = ctx
        self._seq = itertools.count(1)
        self.conns = {}
        self.infos = {}
        self.calls = {}
        self._calls = itertools.count(1)
        self.statuses = []
        self.open_ops = []
        self.server = None
        self.closing = False
        self.quiet = (not plan['faults'] and not plan.get('queue') and
                      not any(op.get('raise') for op in plan['ops']))
        self.node = world.add_node('srv', '10.0.0.1')
        self.proc = self.node.spawn('p')
        self.clients = [Cl(self, spec, f'10.0.1.{i + 1}')
                        for i, spec in enumerate(plan['clients'])]
        self.pending_calls = set()
        self.reqs = {}
        self._reqs = itertools.count(1)
        self.net_faulty = set()
        self.stall_end = 0
        self.t_disturb = 0

    def seq(self):
        return next(self._seq)

    def is_conn_error(self, e):
        from hat import aio
        return isinstance(e, (ConnectionError, aio.QueueClosedError,
                              aio.group.GroupClosedError))

    def open_op(self, cl, conn, kind):
        op = {'cl': cl, 'conn': conn, 'kind': kind, 't': self.w.now}
        self.open_ops.append(op)
        return op

    def close_op(self, op):
        if op in self.open_ops:
            self.open_ops.remove(op)
        conn = op['conn']
        t = conn.t_closed
        if t is not None and not self.w.stopped and op['kind'] != 'connect':
            t = max(t, op['t'], conn.cl.stall_end)
            self.ctx.check('C12', 'late-error', self.w.now <= t + BOUND,
                           lambda: f'{conn}: {op["kind"]} ended '
                                   f'{(self.w.now - t) / NS:.1f} s after '
                                   f'connection was closed')

    # execution

    def run(self):
        w = self.w
        plan = self.plan
        self.proc.start(self.main)
        for cl in self.clients:
            w.after(ns(cl.spec['start']) + 1000, cl.start)
        for op in plan['ops']:
            w.at(ns(0.01 + op['t']), self.op, op)
        for f in plan['faults']:
            w.at(ns(0.01 + f['t']), self.fault, f)
        w.run(ns(plan['horizon'] + 3))
        if w.stopped:
            return
        self.faulting = False
        w.net.heal_all()
        for a in self.clients:
            w.net.link(a.node, self.node).extra_latency = 0
        w.calm()
        for cl in self.clients:
            cl.start()
        w.run(FINAL + max(w.now, self.stall_end,
                          *(cl.stall_end for cl in self.clients)))
        if w.stopped:
            return
        self.check_end()
        if w.stopped:
            return
        self.closing = True
        t = self.proc.start(self.close)
        w.run(w.now + 60 * NS)
        if w.stopped:
            return
        self.check_closed()

    async def close(self):
        await self.server.async_close()
        self.closed = True

    closed = False
    faulting = True

    async def main(self):
        from hat.event import eventer
        from hat.drivers import tcp
        self.statuses.append('STANDBY')
        self.server = await eventer.listen(
            tcp.Address(self.node.host, PORT),
            status=self.common.Status.STANDBY,
            connected_cb=self.on_connected,
            disconnected_cb=self.on_disconnected,
            register_cb=self.on_register, query_cb=self.on_query)
        self.status_queue = asyncio.Queue()
        self.notify_queues = {p: asyncio.Queue() for p in (False, True)}
        loop = asyncio.get_running_loop()
        self.tasks = [loop.create_task(self.status_loop()),
                      *(loop.create_task(self.notify_loop(q))
                        for q in self.notify_queues.values())]

    def fault(self, f):
        w = self.w
        cl = self.clients[f['c']]
        k = f['f']
        self.net_faulty.add(cl)
        if k == 'reset':
            w.net.reset(cl.node, self.node)
        elif k == 'crash':
            cl.crash(f['power'])
        elif k == 'part':
            w.net.partition(cl.node, self.node)
            w.after(ns(f['d']), w.net.heal, cl.node, self.node)
        elif k == 'stall':
            self.proc.stall(ns(f['d']))
            self.stall_end = max(self.stall_end, w.now) + ns(f['d'])
        elif k == 'cstall':
            if cl.proc and cl.proc.alive:
                cl.proc.stall(ns(f['d']))
                cl.stall_end = max(cl.stall_end, w.now) + ns(f['d'])
        elif k == 'slow':
            w.faults['slow_link'] += 1
            w.net.link(cl.node, self.node).extra_latency = ns(
                min(f['d'], 1))

    def op(self, op):
        w = self.w
        k = op['k']
        if k in ('notify', 'status'):
            if self.server is None:
                return
            q = (self.status_queue if k == 'status' else
                 self.notify_queues[op['persisted']])
            self.proc.call(q.put_nowait, op)
            return
        cl = self.clients[op['c']]
        conn = cl.conn
        if not conn or not cl.proc.alive:
            return
        if k == 'close':
            if not cl.spec['stays']:
                conn.closing = True
                w.trace('close', conn.name)
                cl.proc.call(conn.client.close)
            return
        cl.proc.start(self.request, cl, conn, op)

    # server application

    async def status_loop(self):
        while True:
            op = await self.status_queue.get()
            cur = self.statuses[-1]
            new = CYCLE[(CYCLE.index(cur) + 1) % 4]
            if op['stop'] and 'STOPPING' in LEGAL[cur]:
                new = 'STOPPING'
            self.statuses.append(new)
            self.w.trace('set_status', new)
            self.t_status = self.w.now
            await self.server.set_status(self.common.Status[new])

    async def notify_loop(self, queue):
        loop = asyncio.get_running_loop()
        while True:
            op = await queue.get()
            if op['ack']:
                self.tasks.append(loop.create_task(self.notify(op)))
                await asyncio.sleep(0)
            else:
                await self.notify(op)

    def expected(self, info, call):
        spec = self.conns[info.client_name].cl.spec
        if spec['persisted'] != call.op['persisted']:
            return []
        from .. import model
        return [e for e in call.events
                if any(model.type_matches(e.type, tuple(q))
                       for q in spec['subs']) and
                spec['server_id'] in (None, e.id.server)]

    async def notify(self, op):
        c = self.common
        n = next(self._calls)
        events = [c.Event(id=c.EventId(s + self.plan['id_shift'], n, i + 1),
                          type=tuple(t),
                          timestamp=c.Timestamp(n, i), source_timestamp=None,
                          payload=c.EventPayloadJson(
                              {'n': n, 'p': 'x' * op['pad']}))
                  for i, (t, s) in enumerate(op['events'])]
        call = Call(n, op, events)
        call.t = self.w.now
        call.seq = self.seq()
        self.calls[n] = call
        for info in self.server.get_conn_infos():
            exp = self.expected(info, call)
            if exp:
                call.recips[self.conns[info.client_name]] = exp
        self.w.trace('notify', n, len(call.recips))
        self.pending_calls.add(call)
        await self.server.notify_events(events, op['persisted'], op['ack'])
        self.pending_calls.discard(call)
        call.returned = self.seq()
        call.t_returned = self.w.now
        self.w.trace('notified', n)
        if self.closing:
            return
        if op['ack']:
            self.check_acked(call)

    def srv_closed(self, conn):
        return conn.t_disc is not None

    def check_acked(self, call):
        late = [c for c in call.recips if call.n not in c.done and
                not self.srv_closed(c) and not c.closing and not c.crashed and
                not (c.client and not c.client.is_open)]
        self.ctx.evals['C16'] += 1
        if not late:
            return

        def check():
            for c in late:
                if not self.ctx.check(
                        'C16', 'returned-early',
                        self.srv_closed(c) or self.closing,
                        lambda: f'{call} returned although {c} has not '
                                f'processed the notification and is not '
                                f'closed'):
                    return
        # request which is being processed delays disconnected callback
        self.w.after(5 * NS + max(0, self.stall_end - self.w.now), check)

    def on_connected(self, info):
        conn = self.conns.get(info.client_name)
        if conn is None:
            raise core.HarnessError('unknown client')
        self.w.trace('srv_connected', conn.name)
        spec = conn.cl.spec
        self.ctx.check('C14', 'info', (
            info.client_token == spec['token'] and
            info.server_id == spec['server_id'] and
            info.persisted == spec['persisted']), lambda: f'{info}')
        if spec['connect']:
            return self._connected(conn, info)
        self.do_connected(conn, info)

    async def _connected(self, conn, info):
        await asyncio.sleep(conn.cl.spec['connect'])
        self.do_connected(conn, info)

    def do_connected(self, conn, info):
        if conn.cl.spec['token'] == 'bad':
            raise Exception('invalid client token')
        conn.srv_conn += 1
        conn.info = info
        if (conn.cl.spec['eager'] == 'kick' and self.faulting and
                len(conn.cl.conns) % 2):
            # connection is lost just after it is established
            self.net_faulty.add(conn.cl)
            self.w.after(ns(self.w.rng('kick').random() * 0.003),
                         self.w.net.reset, conn.cl.node, self.node)
        self.infos[info.id] = conn

    def on_disconnected(self, info):
        conn = self.infos.get(info.id)
        if conn is None and self.closing:
            # connected callback was interrupted
            return
        if not self.ctx.check('C14', 'disconnected', conn is not None and
                              not conn.srv_disc and conn.info == info,
                              lambda: f'disconnected callback for {info}'):
            return
        self.w.trace('srv_disconnected', conn.name)
        conn.srv_disc += 1
        conn.t_disc = self.w.now
        self.ctx.check('C14', 'listed', info not in
                       self.server.get_conn_infos(),
                       lambda: f'{conn} disconnected but still listed')
        if conn.cl.spec['disconnect']:
            return asyncio.sleep(conn.cl.spec['disconnect'])

    def _request(self, info, mark):
        req = self.reqs.get(mark)
        conn = self.infos.get(info.id)
        if not self.ctx.check(['C10', 'C15'], 'request', req is not None and
                              conn is req['conn'] and
                              not conn.srv_disc and
                              conn.cl.spec['token'] != 'bad',
                              lambda: f'{info}: request {mark}'):
            return None
        self.ctx.check('C10', 'request-twice', not req['at_server'],
                       lambda: f'{conn}: request {mark} processed twice')
        self.ctx.check('C10', 'request-order', mark > conn.arrived or
                       req['cancelled'],
                       lambda: f'{conn}: request {mark} processed after '
                               f'{conn.arrived}')
        conn.arrived = mark
        req['at_server'] = True
        return req

    async def on_register(self, info, events):
        events = list(events)
        mark = events[0].payload.data['m'] if events else None
        req = self._request(info, mark)
        if req is None:
            return
        self.ctx.check('C10', 'request-content', events == req['events'],
                       lambda: f'{info}: {events}')
        op = req['op']
        if op['d']:
            await asyncio.sleep(op['d'])
        if op.get('raise'):
            self.w.faults['callback_raise'] += 1
            req['conn'].raised = True
            raise Exception('simulated error')
        if op['fail']:
            return None
        c = self.common
        req['answer'] = [
            c.Event(id=c.EventId(1, mark, i + 1), type=e.type,
                    timestamp=c.Timestamp(mark, 0),
                    source_timestamp=e.source_timestamp, payload=e.payload)
            for i, e in enumerate(events)]
        return req['answer']

    async def on_query(self, info, params):
        mark = params.last_event_id.session
        req = self._request(info, mark)
        if req is None:
            return
        op = req['op']
        self.ctx.check('C12', 'query-params', params == req['params'],
                       lambda: f'{params}')
        if op['d']:
            await asyncio.sleep(op['d'])
        c = self.common
        req['answer'] = c.QueryResult(
            [c.Event(id=c.EventId(1, mark, i + 1), type=('q', ),
                     timestamp=c.Timestamp(mark, 0), source_timestamp=None,
                     payload=None) for i in range(op['n'])], op['fail'])
        return req['answer']

    # clients

    async def request(self, cl, conn, op):
        c = self.common
        mark = next(self._reqs)
        req = {'mark': mark, 'conn': conn, 'op': op, 'at_server': False,
               'answer': None, 'cancelled': 'cancel' in op or 'cancel_step' in op}
        self.reqs[mark] = req
        if op['what'] == 'query':
            req['params'] = c.QueryServerParams(
                server_id=1, last_event_id=c.EventId(1, mark, 1))
            coro = conn.client.query(req['params'])
        else:
            req['events'] = [c.RegisterEvent(('r', str(i)), None,
                                             c.EventPayloadJson({'m': mark}))
                             for i in range(op['n'])]
            coro = conn.client.register(req['events'], op['what'] == 'reg')
        o = self.open_op(cl, conn, op['what'])
        task = asyncio.Task(coro, loop=asyncio.get_running_loop(), eager_start=True)
        try:
            if 'cancel' in op:
                self.w.faults['cancelled_call'] += 1
                await asyncio.wait([task], timeout=op['cancel'])
                task.cancel()
            elif 'cancel_step' in op:
                self.w.faults['cancelled_call'] += 1
                cancel_on_input(self.w.proc, task, op['cancel_step'])
            try:
                result = await task
            except asyncio.CancelledError:
                if not req['cancelled']:
                    raise
                return
            except Exception as e:
                ok = self.is_conn_error(e)
                self.ctx.check('C12', 'request-error', ok,
                               lambda: f'{conn}: {op["what"]}: {e!r}')
                if ok:
                    # really lost
                    self.ctx.check(
                        'C12', 'error-while-open',
                        conn.closing or not conn.client.is_open,
                        lambda: f'{conn}: {op["what"]} failed with {e!r} '
                                f'while connection is open')
                return
        finally:
            self.close_op(o)
        if op['what'] == 'reg0':
            self.ctx.check('C12', 'answer', result is None, 'answer')
            return
        want = req['answer']
        if not self.ctx.check(['C12', 'C10'], 'no-answer', req['at_server'],
                              lambda: f'{conn}: request {mark} answered '
                                      f'before it was processed'):
            return
        if op['what'] == 'query':
            ok = (want is not None and
                  list(result.events) == list(want.events) and
                  result.more_follows == want.more_follows)
        else:
            ok = (result is None if op['fail'] else
                  result is not None and list(result) == want)
        self.ctx.check('C12', 'answer', ok,
                       lambda: f'{conn}: {op} {mark}: got {result}, '
                               f'expected {want}')

    def on_status(self, conn, status):
        self.w.trace('status', conn.name, status)
        if conn.refused:
            self.ctx.violate('C15', 'refused-status', f'{conn}')
        if not conn.hist:
            # notified before connect returned
            conn.hist.append(None)
        conn.hist.append(status)
        self.check_hist(conn)

    def check_hist(self, conn):
        hist = [h for h in conn.hist if h is not None]
        n = len(hist)
        ok = any(self.statuses[i:i + n] == hist
                 for i in range(len(self.statuses) - n + 1))
        self.ctx.check('C13', 'history', ok,
                       lambda: f'{conn}: statuses {hist}, server had '
                               f'{self.statuses}')

    def on_events(self, conn, events):
        ctx = self.ctx
        if conn.refused:
            ctx.violate('C15', 'refused-events', f'{conn}')
        if not ctx.check('C11', 'empty', events, lambda: f'{conn}'):
            return
        n = events[0].id.session
        self.w.trace('events', conn.name, n)
        call = self.calls.get(n)
        if not ctx.check('C11', 'unknown', call is not None,
                         lambda: f'{conn}: {events[0]}'):
            return
        ctx.check('C11', 'twice', n not in conn.got,
                  lambda: f'{conn}: {call} received twice')
        conn.got[n] = self.seq()
        want = self.expected(conn.info, call) if conn.info else []
        ctx.check('C11', 'content', events == want,
                  lambda: f'{conn}: {call}: got {events[:4]}, expected '
                          f'{want[:4]}')
        ctx.check('C11', 'before-connected', call.returned is None or
                  call.returned > conn.call_seq,
                  lambda: f'{conn}: {call} ended before connecting')
        if not call.op['ack']:
            ctx.check('C11', 'order', n > conn.last,
                      lambda: f'{conn}: {call} after {conn.last}')
            conn.last = n
        return call

    def on_events_done(self, conn, call):
        if call is None:
            return
        conn.done[call.n] = self.seq()
        self.w.trace('events_done', conn.name, call.n)
        if call.op['ack'] and call.returned is None and all(
                call.n in c.done or c.t_disc is not None
                for c in call.recips) and not self.plan['faults']:
            self.w.after(60 * NS, self.check_returned, call)

    def check_returned(self, call):
        self.ctx.check('C16', 'not-returned', call.returned is not None,
                       lambda: f'{call} of {[str(i) for i in call.recips]} '
                               f'is still waiting 60 s after all recipients '
                               f'processed it')

    # end

    def check_end(self):
        """Everything is calm for a long time"""
        w = self.w
        ctx = self.ctx
        for op in self.open_ops:
            if op['kind'] != 'connect' and w.now - op['t'] > 60 * NS:
                ctx.violate('C12', 'pending',
                            f'{op["conn"]}: {op["kind"]} pending for '
                            f'{(w.now - op["t"]) / NS:.0f} s, connection '
                            f'closed {op["conn"].t_closed}')
        for call in self.pending_calls:
            if w.now - call.t > 100 * NS:
                ctx.violate(['C16'] if call.op['ack'] else ['C11', 'C25'],
                            'not-returned',
                            f'{call} of {[str(i) for i in call.recips]} '
                            f'does not return')
        for conn in self.conns.values():
            if conn.crashed or conn.client is None:
                if conn.srv_conn and w.now - conn.t_call > 140 * NS:
                    ctx.check(['C12', 'C14'], 'not-disconnected',
                              conn.srv_disc, lambda: f'{conn}: server keeps '
                              f'lost connection')
                continue
            if conn.t_closed is not None:
                if w.now - conn.t_closed > 100 * NS:
                    ctx.check(['C12', 'C14'], 'not-disconnected',
                              conn.srv_disc == 1,
                              lambda: f'{conn}: {conn.srv_disc} disconnected '
                                      f'callbacks')
                continue
            # open connection
            ctx.check(['C12', 'C14'], 'disconnected-open', conn.srv_disc == 0,
                      lambda: f'{conn}: open at client, closed at server')
            ctx.check('C13', 'final', conn.hist[-1] == self.statuses[-1] and
                      conn.client.status.name == self.statuses[-1],
                      lambda: f'{conn}: status {conn.hist[-1]}, server '
                              f'{self.statuses[-1]}')
            for call in self.calls.values():
                if conn in call.recips:
                    ctx.check('C11', 'missing', call.n in conn.got,
                              lambda: f'{conn}: {call} not received')
        for cl in self.clients:
            if cl.spec['token'] == 'bad':
                continue
            ctx.check(['C12', 'C25'], 'no-connection', cl.conn is not None,
                      lambda: f'{cl.spec["name"]} is not connected at the '
                              f'end')

    def check_closed(self):
        ctx = self.ctx
        ctx.check('C24', 'close', self.closed,
                  'eventer server is not closed after 60 s')
        ctx.check('C16', 'close-pending', not self.pending_calls,
                  lambda: f'{self.pending_calls} pending after server closed')
        for conn in self.conns.values():
            ctx.check('C14', 'pairs', conn.srv_conn == conn.srv_disc,
                      lambda: f'{conn}: {conn.srv_conn} connected and '
                              f'{conn.srv_disc} disconnected callbacks')
        for op in self.open_ops:
            if op['kind'] != 'connect':
                ctx.violate('C12', 'pending-closed',
                            f'{op["conn"]}: {op["kind"]} pending after '
                            f'server closed')
