"""Adminer server with several clients issuing concurrent requests.

Listening side is either `hat.event.adminer` server with scripted callbacks or
adminer server of the event server (`hat.event.server.adminer_server`), where
only `logging.config.dictConfig` is replaced by a recording stand-in.
"""

import asyncio
import itertools
import logging.config

from .. import core
from ..core import NS, ns
from ..evsys import pick
from . import cancel_on_input


REAL = ['hat.event.adminer (client and server)',
        'hat.event.server.adminer_server', 'hat.aio',
        'hat.drivers (chatter, tcp)', 'hat.sbs', 'hat.json']
STUB = ['event loop', 'clock', 'TCP', 'logging.config.dictConfig',
        'application behind adminer server', 'client applications']

PORT = 23021

BOUND = 60 * NS


def delay(rng):
    return pick(rng, [0, 0, 0, 0.001, 0.01, 0.2, round(rng.random() * 3, 3)])


def generate(rng, prop, tier):
    horizon = pick(rng, [0.5, 3, 15])
    n_cl = pick(rng, [1, 1, 2, 3, 5])
    clients = [{'name': f'c{i}', 'retry': pick(rng, [0.01, 0.3, 2])}
               for i in range(n_cl)]
    server = rng.random() < 0.4
    ops = []
    for _ in range(pick(rng, [8, 25, 60] if tier == 'quick' else
                        [20, 60, 150])):
        op = {'t': round(rng.random() * horizon, 4),
              'c': int(rng.random() * n_cl)}
        if rng.random() < 0.03:
            op['k'] = 'close'
        else:
            op['k'] = pick(rng, ['get', 'set'])
            op['rep'] = pick(rng, [1, 1, 1, 1, 2, 5])
            op['pad'] = pick(rng, [0, 0, 0, 100, 3000])
            op['d'] = delay(rng)
            op['mode'] = pick(rng, ['ok', 'ok', 'ok', 'fail', 'bad'])
            if rng.random() < 0.25:
                if rng.random() < 0.3:
                    op['cancel_step'] = int(rng.random() * 25)
                op['cancel'] = pick(rng, [0, 0, 0.0002, 0.001, 0.003, 0.02,
                                          delay(rng)])
        ops.append(op)
    if rng.random() < 0.6:
        centers = [round(rng.random() * horizon, 4) for _ in range(3)]
        for op in ops:
            if rng.random() < 0.7:
                op['t'] = round(pick(rng, centers) + rng.random() * 0.02, 5)
    ops.sort(key=lambda o: o['t'])
    faults = []
    if rng.random() < 0.55:
        for _ in range(pick(rng, [1, 2, 4])):
            faults.append({'t': round(rng.random() * horizon, 4),
                           'f': pick(rng, ['reset', 'crash', 'part', 'stall',
                                           'cstall', 'slow', 'reset',
                                           'scrash', 'sclose']),
                           'c': int(rng.random() * n_cl),
                           'power': rng.random() < 0.4,
                           'd': pick(rng, [0.05, 1, 8, 50])})
            if faults[-1]['f'] in ('stall', 'cstall'):
                faults[-1]['d'] = pick(rng, [0.05, 1, 5])
    faults.sort(key=lambda f: f['t'])
    return {'scenario': 'adminer', 'prop': prop, 'server': server,
            'none': pick(rng, [None] * 8 + ['get', 'set']),
            'async': rng.random() < 0.6,
            'clients': clients, 'ops': ops, 'faults': faults,
            'horizon': horizon,
            'world': {'net': {
                'lat_max': pick(rng, [0.0005, 0.005, 0.05]),
                'spike_p': pick(rng, [0, 0.02, 0.1]), 'spike_max': 0.8,
                'seg_p': pick(rng, [0, 0.1, 0.5]),
                'window': pick(rng, [2048, 65536, 65536])}}}


def run(world, plan, ctx):
    orig = logging.config.dictConfig
    try:
        Driver(world, plan, ctx).run()
    finally:
        logging.config.dictConfig = orig


class Req:

    def __init__(self, n, conn, op):
        self.n = n
        self.conn = conn
        self.op = op
        self.kind = op['k']
        self.t = None
        self.done = None
        self.handled = []           # (t0, t1, error)
        self.arg = None

    def __repr__(self):
        return f'<{self.kind} {self.n} of {self.conn.name}>'


class Conn:

    def __init__(self, cl, name):
        self.cl = cl
        self.name = name
        self.client = None
        self.excuse = None          # reason for which it may be closed
        self.t_closed = None
        self.crashed = False
        self.results = {}           # request number -> get number

    def __repr__(self):
        return self.name


class Cl:

    def __init__(self, drv, spec, host):
        self.drv = drv
        self.w = drv.w
        self.spec = spec
        self.node = self.w.add_node(spec['name'], host)
        self.n = 0
        self.proc = None
        self.conn = None
        self.conns = []
        self.stall_end = 0

    def start(self):
        if self.proc and self.proc.alive:
            return
        self.n += 1
        self.proc = self.node.spawn(f'p{self.n}')
        self.proc.start(self.main)

    def excuse(self, why):
        for c in self.conns:
            if c.t_closed is None:
                c.excuse = c.excuse or why

    def crash(self, power):
        if not self.proc or not self.proc.alive:
            return
        self.w.faults['crash_power' if power else 'crash_kill'] += 1
        self.node.crash(power)
        for c in self.conns:
            c.crashed = True
        for r in [r for r in self.drv.pending if r.conn.cl is self]:
            self.drv.pending.remove(r)
        self.conn = None
        self.w.after(ns(0.5), self.start)

    async def main(self):
        from hat.drivers import tcp
        from hat.event import adminer
        drv = self.drv
        while not drv.closing:
            conn = Conn(self, f'{self.spec["name"]}-{len(self.conns)}')
            self.conns.append(conn)
            if drv.disturbed(self):
                conn.excuse = 'connected while disturbed'
            try:
                conn.client = await adminer.connect(
                    tcp.Address(drv.node.host, PORT))
            except Exception as e:
                conn.t_closed = self.w.now
                drv.ctx.check('C27', 'connect-error',
                              isinstance(e, ConnectionError),
                              lambda: f'{conn}: {e!r}')
                await asyncio.sleep(self.spec['retry'])
                continue
            self.w.trace('connected', conn.name)
            self.conn = conn
            await conn.client.wait_closing()
            conn.t_closed = self.w.now
            self.conn = None
            self.w.trace('closed', conn.name)
            drv.ctx.check(
                'C27', 'connection-closed', conn.excuse is not None,
                lambda: f'{conn}: connection closed without reason')
            await asyncio.sleep(self.spec['retry'])


class Driver:

    def __init__(self, world, plan, ctx):
        self.w = world
        self.plan = plan
        self.ctx = ctx
        self.node = world.add_node('srv', '10.0.0.1')
        self.n_srv = 0
        self.proc = None
        self.server = None
        self.clients = [Cl(self, spec, f'10.0.1.{i + 1}')
                        for i, spec in enumerate(plan['clients'])]
        self._n = itertools.count(1)
        self._gets = itertools.count(1)
        self.reqs = {}
        self.gets = {}              # get number -> [t0, t1, error, value]
        self.used = set()
        self.pending = []
        self.closing = False
        self.faulting = True
        self.t_calm = 0             # end of stalls of server
        self.confs = []             # (t, conf) of adminer server
        self.parts = {}
        logging.config.dictConfig = self.dict_config

    def disturbed(self, cl):
        return self.server is None or self.parts.get(cl.node.name)

    def run(self):
        w = self.w
        plan = self.plan
        self.start()
        for cl in self.clients:
            w.after(NS // 1000, cl.start)
        for op in plan['ops']:
            w.at(ns(0.02 + op['t']), self.op, op)
        for f in plan['faults']:
            w.at(ns(0.02 + f['t']), self.fault, f)
        w.run(ns(plan['horizon'] + 2))
        if w.stopped:
            return
        self.faulting = False
        w.net.heal_all()
        for cl in self.clients:
            w.net.link(cl.node, self.node).extra_latency = 0
        w.calm()
        self.start()
        for cl in self.clients:
            cl.start()
        w.run(max(w.now, self.t_calm, *(c.stall_end for c in self.clients)) +
              120 * NS)
        if w.stopped:
            return
        for cl in self.clients:
            self.ctx.check('C27', 'no-connection', cl.conn is not None,
                           lambda: f'{cl.spec["name"]} is not connected')
            if cl.conn:
                for k in ('get', 'set', 'get'):
                    self.op({'k': k, 'c': self.clients.index(cl), 'rep': 2,
                             'pad': 0, 'd': 0, 'mode': 'ok'})
        w.run(w.now + 20 * NS)
        if w.stopped:
            return
        self.check_pending(10 * NS)
        # requests pending while server closes
        for i in range(len(self.clients)):
            self.op({'k': 'get', 'c': i, 'rep': 2, 'pad': 0, 'd': 100,
                     'mode': 'ok'})
        w.run(w.now + NS)
        if w.stopped:
            return
        self.closing = True
        for cl in self.clients:
            cl.excuse('server closed')
        self.proc.start(self.close)
        w.run(w.now + 60 * NS)
        if w.stopped:
            return
        self.ctx.check('C27', 'close', self.closed,
                       'adminer server is not closed after 60 s')
        self.check_pending(0)

    closed = False

    async def close(self):
        await self.server.async_close()
        self.closed = True

    def check_pending(self, margin):
        w = self.w
        for r in self.pending:
            self.ctx.check('C27', 'pending', w.now - r.t < margin,
                           lambda: f'{r} is pending for '
                                   f'{(w.now - r.t) / NS:.0f} s (connection '
                                   f'closed: {r.conn.t_closed})')

    def start(self):
        if self.proc and self.proc.alive:
            return
        self.n_srv += 1
        self.proc = self.node.spawn(f's{self.n_srv}')
        self.proc.start(self.main)

    async def main(self):
        from hat.drivers import tcp
        from hat.event import adminer
        from hat.event.server import adminer_server
        addr = tcp.Address(self.node.host, PORT)
        if self.plan['server']:
            conf = {'init': self.n_srv}
            self.confs.append((self.w.now, conf))
            self.server = await adminer_server.create_adminer_server(
                addr, conf)
        else:
            on_get = self.on_get_async if self.plan['async'] else self.on_get
            on_set = self.on_set_async if self.plan['async'] else self.on_set
            self.server = await adminer.listen(
                addr,
                get_log_conf_cb=None if self.plan['none'] == 'get' else on_get,
                set_log_conf_cb=None if self.plan['none'] == 'set' else on_set)
        self.w.trace('listen', self.n_srv)
        await self.server.wait_closing()
        self.server = None

    # faults

    def server_down(self, why):
        for cl in self.clients:
            cl.excuse(why)
        self.server = None

    def fault(self, f):
        w = self.w
        cl = self.clients[f['c']]
        k = f['f']
        if k == 'reset':
            cl.excuse('reset')
            w.net.reset(cl.node, self.node)
        elif k == 'crash':
            cl.excuse('crash')
            cl.crash(f['power'])
        elif k == 'part':
            cl.excuse('partition')
            name = cl.node.name
            self.parts[name] = self.parts.get(name, 0) + 1
            w.net.partition(cl.node, self.node)

            def heal():
                w.net.heal(cl.node, self.node)
                self.parts[name] -= 1

            w.after(ns(f['d']), heal)
        elif k == 'stall':
            self.proc.stall(ns(f['d']))
            self.t_calm = max(self.t_calm, w.now) + ns(f['d'])
        elif k == 'cstall':
            if cl.proc and cl.proc.alive:
                cl.proc.stall(ns(f['d']))
                cl.stall_end = max(cl.stall_end, w.now) + ns(f['d'])
        elif k == 'slow':
            w.faults['slow_link'] += 1
            w.net.link(cl.node, self.node).extra_latency = ns(min(f['d'], 1))
        elif k == 'scrash':
            w.faults['crash_power' if f['power'] else 'crash_kill'] += 1
            self.server_down('server crash')
            self.node.crash(f['power'])
            w.after(ns(min(f['d'], 1)), self.start)
        elif k == 'sclose':
            if self.server and self.proc.alive:
                w.faults['graceful_stop'] += 1
                proc = self.proc
                proc.call(self.server.close)
                self.server_down('server close')

                def end():
                    if proc.alive:
                        proc.kill()
                    self.start()

                w.after(ns(min(f['d'], 1)), end)

    # clients

    def op(self, op):
        cl = self.clients[op['c']]
        conn = cl.conn
        if not conn or not cl.proc.alive:
            return
        if op['k'] == 'close':
            conn.excuse = conn.excuse or 'client close'
            cl.proc.call(conn.client.close)
            return
        for _ in range(op['rep']):
            cl.proc.start(self.request, conn, op)

    async def request(self, conn, op):
        from hat import aio
        from hat.event import adminer
        w = self.w
        ctx = self.ctx
        req = Req(next(self._n), conn, op)
        self.reqs[req.n] = req
        req.t = w.now
        w.trace('req', req.kind, req.n, conn.name)
        if op['k'] == 'set':
            req.arg = {'n': req.n, 'd': op['d'], 'mode': op['mode'],
                       'pad': 'x' * op['pad']}
            coro = conn.client.set_log_conf(req.arg)
        else:
            coro = conn.client.get_log_conf()
        self.pending.append(req)
        cancelled = False
        try:
            task = asyncio.ensure_future(coro)
            if op.get('cancel_step') is not None:
                w.faults['cancel'] += 1
                cancelled = True
                cancel_on_input(w.proc, task, op['cancel_step'])
            elif op.get('cancel') is not None:
                await asyncio.wait([task], timeout=op['cancel'])
                if not task.done():
                    task.cancel()
                    cancelled = True
                    w.faults['cancel'] += 1
            result = 'ok', await task
        except asyncio.CancelledError:
            result = 'cancelled', None
        except adminer.AdminerError as e:
            result = 'error', str(e)
        except (ConnectionError, aio.QueueClosedError) as e:
            result = 'conn', e
        except Exception as e:
            ctx.violate('C27', 'exception', f'{req}: {e!r}')
            return
        if w.stopped:
            return
        if req in self.pending:
            self.pending.remove(req)
        req.done = w.now
        w.trace('res', req.n, result[0])
        ctx.evals['C27'] += 1
        if result[0] == 'cancelled':
            ctx.check('C27', 'cancelled', cancelled,
                      lambda: f'{req}: cancelled')
            return
        if result[0] == 'conn':
            ctx.check('C27', 'connection-lost',
                      conn.excuse is not None,
                      lambda: f'{req}: {result[1]!r} without reason')
            if conn.t_closed is not None:
                t = max(conn.t_closed, req.t, conn.cl.stall_end)
                ctx.check('C27', 'late-error', w.now <= t + BOUND,
                          lambda: f'{req}: error '
                                  f'{(w.now - t) / NS:.1f} s after connection '
                                  f'closed')
            return
        w.probes[f'adminer_{req.kind}_{result[0]}'] += 1
        if req.kind == 'set':
            self.check_set(req, result)
        else:
            self.check_get(req, result)

    def check_set(self, req, result):
        ctx = self.ctx
        if not self.plan['server'] and self.plan['none'] == 'set':
            ctx.check('C27', 'not-implemented', result[0] == 'error',
                      lambda: f'{req}: {result}')
            return
        if not ctx.check('C27', 'unhandled', len(req.handled) == 1 and
                         req.handled[0][1] is not None,
                         lambda: f'{req}: {result}, but it was executed '
                                 f'{req.handled}'):
            return
        t0, t1, error = req.handled[0]
        ctx.check('C27', 'set-result', result == (
            ('ok', None) if error is None else ('error', error)),
            lambda: f'{req}: got {result}, expected {error}')

    def check_get(self, req, result):
        ctx = self.ctx
        conn = req.conn
        if self.plan['server']:
            if not ctx.check('C27', 'get-result', result[0] == 'ok',
                             lambda: f'{req}: {result}'):
                return
            ok = False
            for i, (t, conf) in enumerate(self.confs):
                end = (self.confs[i + 1][0] if i + 1 < len(self.confs)
                       else self.w.now)
                if end >= req.t and conf == result[1]:
                    ok = True
            ctx.check('C27', 'stale-conf', ok,
                      lambda: f'{req}: got {str(result[1])[:80]}, which was '
                              f'not configuration since request')
            return
        if self.plan['none'] == 'get':
            ctx.check('C27', 'not-implemented', result[0] == 'error',
                      lambda: f'{req}: {result}')
            return
        n = (result[1]['n'] if result[0] == 'ok' else
             int(result[1].split('#')[1]) if '#' in result[1] else None)
        if n is None:
            # result which can't be encoded
            ctx.check('C27', 'get-error', any(
                g[2] == 'bad' and g[0] >= req.t for g in self.gets.values()),
                lambda: f'{req}: {result}')
            return
        get = self.gets.get(n)
        if not ctx.check('C27', 'get-unknown', get is not None and
                         n not in self.used,
                         lambda: f'{req}: {str(result)[:80]} is not result of '
                                 f'its own'):
            return
        self.used.add(n)
        ctx.check('C27', 'get-time', get[0] >= req.t and get[1] is not None,
                  lambda: f'{req} at {req.t}: result of {get}')
        ctx.check('C27', 'get-result', result == (
            ('ok', get[3]) if get[2] is None else ('error', get[2])),
            lambda: f'{req}: got {str(result)[:80]}, expected {get}')
        conn.results[req.n] = n
        prev = [v for k, v in conn.results.items() if k < req.n]
        ctx.check('C27', 'get-own', all(v < n for v in prev),
                  lambda: f'{req}: result {n}, previous requests of '
                          f'connection got {prev[-5:]}')

    # application

    def behaviour(self):
        rng = self.w.rng('get')
        x = rng.random()
        return (pick(rng, [0, 0, 0.001, 0.05, 1]) if self.faulting or
                self.closing else 0,
                'ok' if x < 0.7 or not self.faulting else
                'fail' if x < 0.85 else 'bad',
                pick(rng, [0, 0, 0, 3000]))

    def get_start(self):
        n = next(self._gets)
        d, mode, pad = self.behaviour()
        if any(r.op['d'] == 100 for r in self.pending):
            d = 100
        self.gets[n] = [self.w.now, None, None, None]
        self.w.trace('on_get', n, mode)
        return n, d, mode, pad

    def get_end(self, n, mode, pad):
        get = self.gets[n]
        get[1] = self.w.now
        if mode == 'fail':
            get[2] = f'failed #{n}'
            raise Exception(get[2])
        if mode == 'bad':
            get[2] = 'bad'
            return {'n': n, 'x': object()}
        get[3] = {'n': n, 'pad': 'y' * pad}
        return get[3]

    def on_get(self):
        n, _, mode, pad = self.get_start()
        return self.get_end(n, mode, pad)

    async def on_get_async(self):
        n, d, mode, pad = self.get_start()
        if d:
            await asyncio.sleep(d)
        return self.get_end(n, mode, pad)

    def set_start(self, conf):
        self.w.trace('on_set', conf.get('n') if isinstance(conf, dict)
                     else conf)
        req = (self.reqs.get(conf.get('n')) if isinstance(conf, dict)
               else None)
        if not self.ctx.check('C27', 'set-conf', req is not None and
                              req.arg == conf,
                              lambda: f'unknown conf {str(conf)[:80]}'):
            raise Exception('unknown')
        self.ctx.check('C27', 'set-twice', not req.handled,
                       lambda: f'{req} executed more than once')
        req.handled.append([self.w.now, None, None])
        return req

    def set_end(self, req):
        h = req.handled[-1]
        h[1] = self.w.now
        if req.arg['mode'] != 'ok':
            h[2] = f'failed #{req.n}'
            raise Exception(h[2])

    def on_set(self, conf):
        self.set_end(self.set_start(conf))

    async def on_set_async(self, conf):
        req = self.set_start(conf)
        if conf['d']:
            await asyncio.sleep(conf['d'])
        self.set_end(req)

    def dict_config(self, conf):
        req = self.set_start(conf)
        self.set_end(req)
        self.confs.append((self.w.now, conf))
