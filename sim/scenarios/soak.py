"""Repeated identical load on processes which stay up.

Long-lived event server(s), client and component go through several identical
cycles of connecting, crashing, refused and cancelling clients, engine
restarts and peer restarts.  After each cycle everything is idle long enough
that all ended activities are over, and everything reachable from tasks,
timers and connections of long-lived processes is counted.
"""

import asyncio
import collections
import gc
import logging.config
import os
import sys
import types

from .. import core
from ..core import NS, ns
from ..evsys import pick
from . import cluster, rogue


REAL = ['hat.event.server (async_main and everything below)',
        'hat.event.backends.lmdb', 'hat.event.eventer (client and server)',
        'hat.event.component', 'hat.event.adminer (client and server)',
        'hat.monitor (server and component)', 'hat.aio',
        'hat.drivers (chatter, tcp)', 'hat.sbs', 'hat.json']
STUB = ['event loop', 'clock', 'TCP', 'disk', 'engine modules',
        'logging.config.dictConfig', 'client applications']

PORT = 23012
ADMIN_PORT = 23021
IDLE = 130
SAMPLES = 4


class Mon(cluster.Mon):
    """hat-monitor server"""


def gen_ops(rng, n, length, servers, app):
    ops = []
    kinds = ['short'] * 6 + ['raw'] * 2 + ['adm', 'app_adm', 'app_reg',
                                           'app_reg', 'app_query', 'restart',
                                           'module', 'reset', 'notify']
    if len(servers) > 1:
        kinds += ['peer', 'peer', 'part', 'flip', 'flip']
    kinds = [pick(rng, kinds) for _ in range(4)]
    for _ in range(n):
        k = pick(rng, kinds)
        op = {'k': k, 't': round(rng.random() * length, 4),
              's': int(rng.random() * len(servers))}
        if k in ('short', 'raw') and rng.random() < 0.3:
            op['s'] = -1
        if k == 'short':
            op.update({
                'rep': pick(rng, [1, 2, 5]),
                'token': pick(rng, ['good', 'good', 'good', 'bad']),
                'subs': pick(rng, [[], [['*']], [['soak', '?']]]),
                'persisted': rng.random() < 0.3,
                'ops': [pick(rng, ['reg', 'regw', 'query', 'regw_cancel',
                                   'query_cancel', 'regw_leave',
                                   'query_leave'])
                        for _ in range(pick(rng, [0, 1, 3]))],
                'delay': pick(rng, [0, 0.001, 0.02]),
                'cb': pick(rng, [None, None, 0.01, 100]),
                'linger': pick(rng, [0, 0, 0.01, 1]),
                'end': pick(rng, ['close', 'close', 'kill', 'power', 'reset',
                                  'part', 'abort'])})
            if op['s'] < 0 and rng.random() < 0.5:
                op['ops'].insert(int(rng.random() * (len(op['ops']) + 1)),
                                 'notify')
                op['subs'] = [['*']]
                op['persisted'] = False
        elif k == 'raw':
            op['chunks'] = [rogue.gen_chunk(rng)
                            for _ in range(pick(rng, [0, 1, 3]))]
            op['end'] = pick(rng, ['close', 'kill', 'hold'])
            op['rep'] = pick(rng, [1, 3])
        elif k == 'adm':
            op['ops'] = [pick(rng, ['get', 'set', 'set_bad', 'get_cancel'])
                         for _ in range(pick(rng, [0, 1, 4]))]
            op['end'] = pick(rng, ['close', 'kill', 'leave'])
            op['rep'] = pick(rng, [1, 3])
        elif k in ('app_reg', 'app_query'):
            op['wr'] = rng.random() < 0.7
            op['rep'] = pick(rng, [1, 3, 10])
            op['cancel'] = pick(rng, [None, 0, 0.001, 0.003, 0.01])
        elif k == 'app_adm':
            op['what'] = pick(rng, ['get', 'set', 'set_bad', 'get_cancel'])
            op['rep'] = pick(rng, [1, 3, 10])
        elif k == 'notify':
            op['ack'] = rng.random() < 0.8
            op['rep'] = pick(rng, [1, 3])
            op['cancel'] = pick(rng, [None, 0, 0.001, 0.003, 0.01])
        elif k == 'flip':
            op['d'] = pick(rng, [3, 10, 40])
        elif k == 'module':
            op['what'] = pick(rng, ['derive', 'register', 'query', 'reset'])
        elif k == 'restart':
            op['rep'] = pick(rng, [1, 2])
        elif k == 'reset':
            op['what'] = pick(rng, ['reset', 'part'])
            op['d'] = pick(rng, [1, 50, 90])
        elif k == 'peer':
            op['power'] = rng.random() < 0.5
            op['d'] = pick(rng, [0.5, 5, 70])
        elif k == 'part':
            op['d'] = pick(rng, [2, 70])
        ops.append(op)
    ops.sort(key=lambda o: o['t'])
    return ops


def generate(rng, prop, tier):
    n_srv = pick(rng, [1, 1, 1, 2])
    length = pick(rng, [1, 5, 20])
    servers = [{'name': f's{i + 1}', 'sid': i + 1,
                'backend': pick(rng, ['lmdb', 'lmdb', 'dummy'])
                if n_srv == 1 else 'lmdb',
                'flush': pick(rng, [0.1, 1, 10]),
                'start': 0.5 + i * 2} for i in range(n_srv)]
    app = {'kind': 'component' if n_srv > 1 and rng.random() < 0.6
           else 'client',
           'subs': pick(rng, [[['*']], [['*']], []]),
           'bind': rng.random() < 0.5,
           'persisted': rng.random() < 0.3}
    return {'scenario': 'soak', 'prop': prop, 'servers': servers, 'app': app,
            'modules': pick(rng, [0, 1, 1, 2]),
            'token': pick(rng, [None, 'good']),
            'ops': gen_ops(rng, pick(rng, [3, 6, 12] if tier == 'quick' else
                                     [4, 12, 30]), length, servers, app),
            'length': length, 'cycles': 5,
            'world': {'net': {
                'lat_max': pick(rng, [0.0005, 0.005, 0.05]),
                'spike_p': pick(rng, [0, 0, 0.02]), 'spike_max': 0.5,
                'seg_p': pick(rng, [0, 0.2])}}}


def run(world, plan, ctx):
    orig = logging.config.dictConfig
    try:
        Driver(world, plan, ctx).run()
    finally:
        logging.config.dictConfig = orig


class Srv:

    def __init__(self, drv, spec, host):
        self.drv = drv
        self.w = drv.w
        self.spec = spec
        self.name = spec['name']
        self.node = self.w.add_node(self.name, host,
                                    root=drv.ctx.scratch / self.name)
        os.mkdir(self.node.root)
        self.proc = None
        self.n = 0
        self.module = None          # last created
        self.stable = True          # never restarted

    def start(self):
        if self.proc and self.proc.alive:
            return
        self.n += 1
        self.proc = self.node.spawn(f'p{self.n}')
        self.proc.start(self.main, self.proc)

    async def main(self, proc):
        from hat.event.server.main import async_main
        await core.guard(async_main(self.drv.server_conf(self)))
        self.w.after(0, self.on_exit, proc)

    def on_exit(self, proc):
        """Process ended by itself"""
        if not proc.alive:
            return
        self.drv.probe('server_exit')
        proc.kill()
        self.stable = False
        self.w.after(NS, self.start)

    def crash(self, power, d):
        if not self.proc.alive:
            return
        self.w.faults['server_crash'] += 1
        self.stable = False
        self.node.crash(power)
        self.w.after(ns(d), self.start)


class Driver:

    def __init__(self, world, plan, ctx):
        self.w = world
        self.plan = plan
        self.ctx = ctx
        world.driver = self
        self.cluster = len(plan['servers']) > 1
        self.servers = {}
        self.mon = None
        if self.cluster:
            self.mon = Mon(self, 0, '10.0.3.1', {
                'type': 'monitor',
                'server': {'host': '10.0.3.1', 'port': cluster.MON_PORT,
                           'default_rank': 1},
                'master': {'host': '10.0.3.1', 'port': cluster.MASTER_PORT},
                'slave': {'parents': [], 'connect_timeout': 2,
                          'connect_retry_count': 3, 'connect_retry_delay': 1},
                'default_algorithm': 'BLESS_ONE', 'group_algorithms': {}})
        for i, spec in enumerate(plan['servers']):
            self.servers[spec['name']] = Srv(self, spec, f'10.0.0.{i + 1}')
        self.evs_node = world.add_node('e', '10.0.5.1')
        self.evs = self.evs_node.spawn('e')
        self.evs_server = None
        self.app_node = world.add_node('app', '10.0.1.1')
        self.app_adm = None
        self.app = None
        self.app_client = None
        self.short_nodes = [world.add_node(f'x{i}', f'10.0.2.{i + 1}')
                            for i in range(4)]
        self.n_short = 0
        self.counts = {}            # process name -> [counts after cycle]
        logging.config.dictConfig = self.dict_config

    def probe(self, name):
        self.w.probes[name] += 1

    def dict_config(self, conf):
        if conf.get('bad'):
            raise ValueError('bad configuration')

    def on_module(self, name, module):
        self.servers[name].module = module

    def excuse(self, inc):
        pass

    def server_conf(self, srv):
        spec = srv.spec
        if spec['backend'] == 'lmdb':
            backend = {'module': 'hat.event.backends.lmdb',
                       'db_path': str(srv.node.root / 'event.db'),
                       'identifier': None, 'flush_period': spec['flush'],
                       'cleanup_period': 60, 'conditions': [],
                       'latest': {'subscriptions': [['*']]},
                       'timeseries': [{'order_by': 'TIMESTAMP',
                                       'subscriptions': [['*']]}]}
        else:
            backend = {'module': 'hat.event.backends.dummy'}
        conf = {'type': 'event', 'name': srv.name, 'server_id': spec['sid'],
                'backend': backend,
                'modules': [{'module': 'sim.soakmod', 'srv': srv.name}
                            for _ in range(self.plan['modules'])],
                'log': {'version': 1},
                'eventer_server': {'host': srv.node.host, 'port': PORT},
                'adminer_server': {'host': srv.node.host,
                                   'port': ADMIN_PORT}}
        if self.mon:
            conf['monitor_component'] = {'host': self.mon.node.host,
                                         'port': cluster.MON_PORT,
                                         'group': 'event'}
        if self.plan['token'] is not None:
            conf['server_token'] = self.plan['token']
        return conf

    # run

    def run(self):
        w = self.w
        plan = self.plan
        if self.mon:
            w.at(0, self.mon.start)
        for s in self.servers.values():
            w.at(ns(s.spec['start']), s.start)
        w.at(0, lambda: self.evs.start(self.evs_main))
        w.at(ns(5), self.start_app)
        w.run(ns(20))
        for n in range(plan['cycles']):
            base = w.now
            for op in plan['ops']:
                w.at(base + ns(op['t']), self.op, op)
            w.run(base + ns(plan['length']))
            w.run(base + ns(plan['length'] + 95))
            w.net.heal_all()
            w.run(w.now + ns(IDLE))
            if w.stopped:
                return
            self.measure(n)
            if w.stopped:
                return
        self.ctx.samples.append({
            'servers': [s['backend'] for s in plan['servers']],
            'app': plan['app']['kind'],
            'ops': collections.Counter(o['k'] for o in plan['ops']),
            'shorts': self.n_short,
            'tasks': {k: v[-1].get('tasks') for k, v in self.counts.items()},
            'objects': {k: v[-1].get('all') for k, v in self.counts.items()}})

    # application which stays up

    def start_app(self):
        self.app = self.app_node.spawn('app')
        if self.plan['app']['kind'] == 'component':
            self.app.start(self.app_component)
        else:
            self.app.start(self.app_loop)
        self.app.start(self.adm_loop)
        self.app.start(self.evs_loop)

    async def evs_main(self):
        from hat.drivers import tcp
        from hat.event import common
        from hat.event import eventer

        async def on_register(info, events):
            await asyncio.sleep(0.001)

        async def on_query(info, params):
            await asyncio.sleep(0.001)
            return common.QueryResult([], False)

        async def on_connected(info):
            await asyncio.sleep(0.001)
            if info.client_token == 'bad':
                raise Exception('invalid token')

        self.evs_server = await eventer.listen(
            tcp.Address(self.evs_node.host, PORT),
            connected_cb=on_connected, register_cb=on_register,
            query_cb=on_query)

    async def notify(self, op):
        from hat.event import common
        event = common.Event(id=common.EventId(1, 1, 1), type=('soak', 'a'),
                             timestamp=common.Timestamp(1, 1),
                             source_timestamp=None, payload=None)
        await self.limited(self.evs_server.notify_events(
            [event], False, op['ack']), op['cancel'])

    async def adm_loop(self):
        from hat.drivers import tcp
        from hat.event import adminer
        srv = next(iter(self.servers.values()))
        while True:
            try:
                self.app_adm = await adminer.connect(
                    tcp.Address(srv.node.host, ADMIN_PORT))
            except ConnectionError:
                await asyncio.sleep(0.5)
                continue
            await self.app_adm.wait_closing()
            await self.app_adm.async_close()
            await asyncio.sleep(0.2)

    async def evs_loop(self):
        from hat.drivers import tcp
        from hat.event import eventer
        while True:
            try:
                client = await eventer.connect(
                    tcp.Address(self.evs_node.host, PORT), 'app',
                    **self.conn_args())
            except ConnectionError:
                await asyncio.sleep(0.5)
                continue
            await client.wait_closing()
            await client.async_close()
            await asyncio.sleep(0.2)

    def conn_args(self):
        spec = self.plan['app']
        args = {'subscriptions': [tuple(i) for i in spec['subs']],
                'persisted': spec['persisted']}
        if self.plan['token'] is not None:
            args['client_token'] = self.plan['token']
        return args

    async def app_loop(self):
        from hat.drivers import tcp
        from hat.event import eventer
        srv = next(iter(self.servers.values()))
        while True:
            try:
                client = await eventer.connect(
                    tcp.Address(srv.node.host, PORT), 'app',
                    **self.conn_args())
            except ConnectionError:
                await asyncio.sleep(0.5)
                continue
            self.app_client = client
            await client.wait_closing()
            self.app_client = None
            await client.async_close()
            await asyncio.sleep(0.2)

    async def app_component(self):
        from hat.drivers import tcp
        import hat.event.component
        component = await hat.event.component.connect(
            tcp.Address(self.mon.node.host, cluster.MON_PORT), 'app', 'app',
            'event', 'app', self.create_runner,
            eventer_kwargs=self.conn_args())
        await component.set_ready(True)
        await component.wait_closing()
        self.probe('component_closed')

    async def create_runner(self, component, server_data, client):
        from hat import aio
        self.app_client = client
        runner = _resource()()
        if self.plan['app']['bind']:
            runner.async_group.spawn(aio.call_on_done, client.wait_closing(),
                                     runner.close)
        else:
            runner.async_group.spawn(aio.call_on_cancel, asyncio.sleep, 0.01)
        return runner

    # load

    def op(self, op):
        w = self.w
        srv = list(self.servers.values())[op['s']] if op['s'] >= 0 else None
        host = srv.node.host if srv else self.evs_node.host
        k = op['k']
        if k in ('short', 'raw', 'adm'):
            for i in range(op['rep']):
                self.n_short += 1
                node = self.short_nodes[self.n_short % len(self.short_nodes)]
                proc = node.spawn('x')
                w.faults[f'{k}_{op["end"]}'] += 1
                proc.start(getattr(self, k), proc, op, host, f'{k}{i}')
                w.after(ns(70), proc.kill)
        elif k in ('app_reg', 'app_query'):
            for _ in range(op['rep']):
                self.app.start(self.app_op, op)
        elif k == 'app_adm':
            for _ in range(op['rep']):
                if self.app_adm:
                    self.app.start(self.adm_op, self.app_adm, op['what'])
        elif k == 'notify':
            for _ in range(op['rep']):
                self.evs.start(self.notify, op)
        elif k == 'flip':
            w.faults['rank_change'] += 1
            self.mon.set_rank('s1', 2)
            w.after(ns(op['d']), self.mon.set_rank, 's1', 1)
        elif k in ('restart', 'module'):
            what = 'restart' if k == 'restart' else op['what']
            for _ in range(op.get('rep', 1)):
                self.app.start(self.trigger, what)
        elif k == 'reset':
            if op['what'] == 'reset':
                w.net.reset(self.app_node, srv.node)
            else:
                w.net.partition(self.app_node, srv.node)
                w.after(ns(op['d']), w.net.heal, self.app_node, srv.node)
        elif k == 'peer':
            list(self.servers.values())[-1].crash(op['power'], op['d'])
        elif k == 'part':
            a, b = [i.node for i in self.servers.values()]
            w.net.partition(a, b)
            w.after(ns(op['d']), w.net.heal, a, b)

    def event(self, k, pad=0):
        from hat.event import common
        return common.RegisterEvent(
            type=('soak', k), source_timestamp=None,
            payload=common.EventPayloadJson('x' * pad) if pad else None)

    async def trigger(self, what):
        client = self.app_client
        if client:
            await self.leave(client.register([self.event(what)]))

    async def call(self, client, k):
        from hat.event import common
        if k.startswith('reg'):
            await client.register([self.event('a'), self.event('derive', 50)],
                                  with_response=k.startswith('regw'))
        else:
            await client.query(common.QueryLatestParams())

    async def app_op(self, op):
        client = self.app_client
        if not client:
            return
        k = (('regw' if op['wr'] else 'reg') if op['k'] == 'app_reg' else
             'query')
        try:
            await self.limited(self.call(client, k), op['cancel'])
        except ConnectionError:
            pass

    async def limited(self, coro, timeout):
        if timeout is None:
            return await coro
        task = asyncio.get_running_loop().create_task(coro)
        await asyncio.sleep(timeout)
        task.cancel()
        await asyncio.wait([task])
        if not task.cancelled():
            task.exception()

    async def leave(self, coro):
        try:
            await coro
        except ConnectionError:
            pass

    async def short(self, proc, op, host, name):
        from hat.drivers import tcp
        from hat.event import eventer
        w = self.w
        addr = tcp.Address(host, PORT)
        args = {'subscriptions': [tuple(i) for i in op['subs']],
                'persisted': op['persisted']}
        if op['cb'] is not None:
            args['events_cb'] = lambda *_: asyncio.sleep(op['cb'])
        if op['token'] == 'bad':
            args['client_token'] = 'bad'
        elif self.plan['token'] is not None:
            args['client_token'] = self.plan['token']
        try:
            if op['end'] == 'abort':
                await self.limited(eventer.connect(addr, name, **args),
                                   op['delay'])
                w.after(NS, proc.kill)
                return
            client = await eventer.connect(addr, name, **args)
            for k in op['ops']:
                if k == 'notify':
                    self.evs.start(self.notify, {'ack': True, 'cancel': None})
                    await asyncio.sleep(op['delay'])
                elif k.endswith('cancel'):
                    await self.limited(self.call(client, k), op['delay'])
                elif k.endswith('leave'):
                    asyncio.get_running_loop().create_task(
                        self.leave(self.call(client, k)))
                else:
                    await self.call(client, k)
            await asyncio.sleep(op['linger'])
        except (ConnectionError, OSError, eventer.EventerInitError):
            proc.kill()
            return
        self.end(proc, op['end'])
        if proc.alive:
            await client.async_close()
            proc.kill()

    def end(self, proc, end):
        w = self.w
        if end == 'kill':
            proc.kill()
        elif end in ('power', 'part'):
            proc.kill(True)
        elif end == 'reset':
            for ep in list(proc.endpoints.values()):
                ep.conn.reset()

    async def raw(self, proc, op, host, name):
        from hat.drivers import tcp
        try:
            conn = await tcp.connect(tcp.Address(host, PORT))
            for chunk in op['chunks']:
                await conn.write(bytes.fromhex(chunk))
                await asyncio.sleep(0.01)
            if op['end'] == 'hold':
                await asyncio.sleep(60)
            elif op['end'] == 'close':
                await conn.async_close()
        except (ConnectionError, OSError):
            pass
        proc.kill()

    async def adm(self, proc, op, host, name):
        from hat.drivers import tcp
        from hat.event import adminer
        try:
            client = await adminer.connect(tcp.Address(host, ADMIN_PORT))
            for k in op['ops']:
                await self.adm_op(client, k)
            if op['end'] == 'leave':
                asyncio.get_running_loop().create_task(
                    self.leave(client.get_log_conf()))
                await asyncio.sleep(0)
            elif op['end'] == 'close':
                await client.async_close()
        except (ConnectionError, OSError):
            pass
        proc.kill()

    async def adm_op(self, client, k):
        from hat.event import adminer
        try:
            if k == 'set':
                await client.set_log_conf({'version': 1})
            elif k == 'set_bad':
                await client.set_log_conf({'bad': True})
            elif k == 'get':
                await client.get_log_conf()
            else:
                await self.limited(client.get_log_conf(), 0)
        except (ConnectionError, adminer.AdminerError):
            pass

    # measurement

    def measure(self, n):
        w = self.w
        procs = {s.name: s.proc for s in self.servers.values() if s.stable}
        procs['app'] = self.app
        procs['e'] = self.evs
        samples = {name: [] for name in procs}
        for _ in range(SAMPLES):
            w.run(w.now + ns(3.1))
            if w.stopped:
                return
            self.check_names()
            for name, proc in procs.items():
                if proc.alive:
                    self.check_endpoints(name, proc)
                    samples[name].append(count(proc))
            if w.stopped:
                return
        for name, proc in procs.items():
            if len(samples[name]) < SAMPLES or not proc.alive:
                continue
            keys = set().union(*samples[name])
            res = {k: min(s[k] for s in samples[name]) for k in keys}
            history = self.counts.setdefault(name, [])
            history.append(res)
            self.probe('measured')
            if len(history) >= 5:
                self.check_growth(name, history[-4:])

    def check_endpoints(self, name, proc):
        for ep in proc.endpoints.values():
            peer = ep.peer()
            self.ctx.check(
                'C33', 'connection-left', peer.proc.alive,
                lambda: f'{name} holds connection with '
                        f'{peer.proc.name} which ended')

    def check_names(self):
        for srv in self.servers.values():
            m = srv.module
            if not m or not m.is_open or not srv.proc.alive:
                continue
            names = collections.Counter(
                i for _, i in m.engine.get_client_names())
            expected = collections.Counter(
                ['app', *(f'event/{i}' for i in self.servers
                          if i != srv.name)])
            left = names - expected
            self.ctx.check('C33', 'client-names', not left,
                           lambda: f'{srv.name} lists clients {dict(left)} '
                                   f'which are not connected')

    def check_growth(self, name, last):
        grown = []
        for k in sorted(set().union(*last)):
            v = [i.get(k, 0) for i in last]
            self.ctx.evals['C33'] += 1
            if all(i < j for i, j in zip(v, v[1:])):
                grown.append(f'{k}: {v}')
        self.ctx.check('C33', 'growth', not grown,
                       lambda: f'{name}: counts after same load keep growing: '
                               f'{grown[:12]}')


def _resource():
    from hat import aio

    class Runner(aio.Resource):

        def __init__(self):
            self._async_group = aio.Group(log_exceptions=False)

        @property
        def async_group(self):
            return self._async_group

    return Runner


SKIP = (type, types.ModuleType, types.CodeType, types.BuiltinFunctionType,
        str, bytes, int, float, bool, type(None), core.SimLoop)
SIZED = (dict, list, set, collections.deque)


def count(proc):
    """Tasks, timers, connections and everything reachable from them"""
    loop = proc.loop
    result = collections.Counter()
    stack = []
    tasks = list(asyncio.all_tasks(loop))
    for t in tasks:
        result['tasks'] += 1
        coro = t.get_coro()
        result[f'task {getattr(coro, "__qualname__", None)}'] += 1
    stack.extend(tasks)
    timers = [i[2] for i in loop._timers if not i[2]._cancelled]
    result['timers'] = len(timers)
    stack.extend(timers)
    stack.extend(loop._ready)
    eps = list(proc.endpoints.values())
    result['connections'] = len(eps)
    stack.extend(ep.protocol for ep in eps)
    seen = set()
    globs = {id(vars(m)) for m in list(sys.modules.values())
             if isinstance(m, types.ModuleType)}
    while stack:
        obj = stack.pop()
        if isinstance(obj, SKIP) or id(obj) in seen or id(obj) in globs:
            continue
        seen.add(id(obj))
        cls = type(obj)
        module = cls.__module__
        if module.startswith('sim.') and not isinstance(
                obj, (core.SimFuture, core.SimTask)):
            if module != 'sim.soakmod':
                continue
        if cls is types.FunctionType:
            stack.extend(obj.__closure__ or ())
            stack.extend(obj.__defaults__ or ())
            continue
        if cls is types.FrameType and obj.f_globals.get(
                '__name__', '').startswith('sim.'):
            continue
        if cls is not tuple:
            result[f'{module}.{cls.__qualname__}'] += 1
        if isinstance(obj, SIZED):
            result[f'items of {cls.__qualname__}'] += len(obj)
        stack.extend(gc.get_referents(obj))
    result['all'] = len(seen)
    return result
