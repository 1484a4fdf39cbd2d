"""Event server used through `hat-event-manager`.

Every command runs as its own simulated process: command line is parsed by the
real `main` function (command line, payload files and standard input are
real), and the coroutine it hands to the event loop runs in the simulation
against the real event server.
"""

import asyncio
import collections
import io
import itertools
import json
import sys

from .. import core
from .. import model
from ..core import NS, ns
from ..evsys import pick
from . import chatter_queue, gen_queue


REAL = ['hat.event.manager', 'hat.event.server (main, main_runner, '
        'engine_runner, engine, eventer_server)',
        'hat.event.eventer (client and server)', 'hat.event.backends '
        '(memory, lmdb)', 'hat.event.common', 'hat.aio',
        'hat.drivers (chatter, tcp)', 'hat.sbs', 'hat.json', 'argparse']
STUB = ['event loop', 'clock', 'TCP', 'hat.aio.run_asyncio', 'standard input '
        'and output', 'executor thread scheduling', 'process supervisor',
        'engine module', 'application client']

PORT = 23012

TYPES = [['a'], ['a', 'x'], ['a', 'y'], ['b', 'x'], ['c'], ['a', '', 'x'],
         ['c', '']]
SUBS = [[], [['*']], [['c', '']], [['a', '*']], [['b', '?'], ['c']], [['cmd', '*']],
        [['event', '*']]]
JSON_DATA = [{'x': [1.5, None, 'ž', True]}, [], 0, 'text', None, {'a': {}},
             '', False, -1.25, [[], {}]]
TOML_DATA = {'x': [1.5, 2.5], 's': 'ž', 'n': 7, 'b': False, 't': {'k': 'v'}}
TOML = 'x = [1.5, 2.5]\ns = "ž"\nn = 7\nb = false\n[t]\nk = "v"\n'


def gen_register(rng):
    kind = pick(rng, ['json', 'json', 'yaml', 'toml', 'binary', 'none'])
    cmd = {'c': 'register', 'payload': kind,
           'type': pick(rng, TYPES),
           'ts': pick(rng, [None, None, 0, 12.5, 1700000000.25, 'now', -1.5])}
    if kind in ('json', 'yaml'):
        cmd['data'] = pick(rng, JSON_DATA)
    elif kind == 'binary':
        cmd['data'] = bytes(int(rng.random() * 256)
                            for _ in range(pick(rng, [0, 1, 300]))).hex()
        cmd['btype'] = pick(rng, [None, '', 'bt', 'x y'])
    cmd['path'] = pick(rng, ['stdin', 'ext', 'ext', 'other'])
    # without explicit type, type of payload is given by file extension
    cmd['explicit'] = (kind == 'none' or cmd['path'] == 'other' or
                       cmd['path'] == 'stdin' and kind != 'json' or
                       rng.random() < 0.5)
    return cmd


def gen_query(rng, sid):
    q = pick(rng, ['latest', 'timeseries', 'timeseries', 'server'])
    cmd = {'c': 'query', 'q': q}

    def maybe(key, values, p=0.4):
        if rng.random() < p:
            cmd[key] = pick(rng, values)

    if q != 'server':
        maybe('types', [*(s for s in SUBS if s), []], 0.5)
    if q == 'timeseries':
        for key in ('t_from', 't_to', 'source_t_from', 'source_t_to'):
            maybe(key, [0, 12.5, 'now', 1e9, 2e9], 0.2)
        maybe('order', ['ASCENDING', 'DESCENDING'])
        maybe('order_by', ['TIMESTAMP', 'SOURCE_TIMESTAMP'])
    if q == 'server':
        cmd['server_id'] = pick(rng, [sid, sid, sid, 1])
        cmd['persisted'] = rng.random() < 0.5
    if q != 'latest':
        maybe('max_results', [1, 3, 10, 0])
        maybe('last_event_id', [[sid, 1, 1], [sid, 2, 1], [sid, 4, 2],
                                [sid, 900, 1]], 0.3)
        # query with id of other server is not valid
        if cmd.get('server_id') == 1:
            cmd.pop('last_event_id', None)
    return cmd


def gen_subscribe(rng, sid):
    return {'c': 'subscribe', 'types': pick(rng, SUBS),
            'server_id': pick(rng, [None, None, sid, 1]),
            'persisted': rng.random() < 0.4}


def generate(rng, prop, tier):
    horizon = pick(rng, [3, 10, 30])
    sid = pick(rng, [3, 3, 0])
    cmds = []
    for _ in range(pick(rng, [5, 12, 25] if tier == 'quick' else
                        [10, 30, 60])):
        x = rng.random()
        cmd = (gen_register(rng) if x < 0.5 else
               gen_query(rng, sid) if x < 0.8 else gen_subscribe(rng, sid))
        cmd['t'] = round(rng.random() * horizon, 4)
        cmd['name'] = pick(rng, [None, None, 'm1', 'm 2'])
        cmd['token'] = pick(rng, [None, None, None, 'good', 'good', 'bad'])
        if rng.random() < 0.1:
            cmd['cancel'] = pick(rng, [0, 0.001, 0.01, 1])
        cmds.append(cmd)
    cmds.sort(key=lambda i: i['t'])
    faults = []
    if rng.random() < 0.75:
        for _ in range(pick(rng, [1, 2, 4, 6])):
            near = pick(rng, cmds)['t'] + rng.random() ** 3 * 0.1
            faults.append({
                't': round(near if rng.random() < 0.6 else
                           rng.random() * horizon, 5),
                'f': pick(rng, ['restart', 'restart', 'crash', 'stop',
                                'reset', 'part', 'stall', 'mcrash', 'slow']),
                'power': rng.random() < 0.3,
                'd': pick(rng, [0.05, 1, 8, 50]),
                'delay': pick(rng, [0.05, 1])})
    faults.sort(key=lambda i: i['t'])
    feed = [{'t': round(rng.random() * horizon, 4),
             'events': [[pick(rng, TYPES),
                         pick(rng, [None, None, int(rng.random() * 50)]),
                         int(rng.random() * len(JSON_DATA))]
                        for _ in range(pick(rng, [1, 1, 2, 4]))]}
            for _ in range(pick(rng, [0, 10, 40]))]
    # events received from other server
    for item in feed:
        if rng.random() < 0.3:
            item['remote'] = True
    feed.sort(key=lambda i: i['t'])
    return {'scenario': 'manager', 'prop': prop, 'horizon': horizon, 'sid': sid,
            'cmds': cmds, 'faults': faults, 'feed': feed,
            'backend': pick(rng, ['memory', 'lmdb']),
            'token': pick(rng, ['good', 'good', None]),
            'module': {'create_delay': pick(rng, [0, 0, 0.2, 2]),
                       'delay': pick(rng, [0, 0, 0.02]),
                       'derive': rng.random() < 0.5},
            'qdelay': pick(rng, [0, 0, 0.05, 1]),
            'world': {'preempt': 0,
                      'net': {'lat_max': pick(rng, [0.0005, 0.005, 0.05]),
                              'spike_p': pick(rng, [0, 0.02]),
                              'spike_max': 0.8,
                              'seg_p': pick(rng, [0, 0.1, 0.5]),
                              'window': pick(rng, [2048, 65536, 65536])}},
            'queue': gen_queue(rng)}


def run(world, plan, ctx):
    prev = sys.stdout
    driver = Driver(world, plan, ctx)
    sys.stdout = Stdout(world, prev)
    try:
        with chatter_queue(plan.get('queue')):
            driver.run()
    finally:
        sys.stdout = prev


class Stdout(io.TextIOBase):
    """Output of simulated processes"""

    def __init__(self, world, prev):
        self._world = world
        self._prev = prev

    def writable(self):
        return True

    def write(self, s):
        proc = self._world.proc
        cmd = proc.data.get('cmd') if proc else None
        if cmd is None:
            return self._prev.write(s)
        cmd.out.append(s)
        if s.endswith('\n'):
            self._world.driver.on_output(cmd)
        return len(s)

    def flush(self):
        pass


async def outcome(coro):
    try:
        return await coro, None
    except (Exception, SystemExit) as e:
        return None, e


class Cmd:

    def __init__(self, n, spec, calm):
        self.n = n
        self.spec = spec
        self.calm = calm
        self.proc = None
        self.task = None
        self.t = None
        self.t_end = None
        self.result = None          # ('exit', code) | ('error', exception)
        self.out = []
        self.argv = None
        self.want = None            # registered event content, or query
        self.killed = False
        self.cancelled = False
        self.first = None           # position in history of notifications
        self.inc = None
        self.n_lines = 0

    def __repr__(self):
        return f'<command {self.n} {" ".join(self.argv or ["?"])}>'

    @property
    def lines(self):
        return ''.join(self.out).splitlines()


def event_json(event):
    """Documented JSON representation (independent of the code)"""
    payload = event.payload
    return {
        'id': {'server': event.id.server, 'session': event.id.session,
               'instance': event.id.instance},
        'type': list(event.type),
        'timestamp': {'s': event.timestamp.s, 'us': event.timestamp.us},
        'source_timestamp': (
            None if event.source_timestamp is None else
            {'s': event.source_timestamp.s,
             'us': event.source_timestamp.us}),
        'payload': (
            None if payload is None else
            {'data_type': 'binary', 'binary_type': payload.type,
             'data': bytes(payload.data).hex()}
            if hasattr(payload, 'type') else
            {'data_type': 'json', 'data': payload.data})}


def same_json(a, b):
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)


class Driver:

    def __init__(self, world, plan, ctx):
        world.driver = self
        self.w = world
        self.plan = plan
        self.ctx = ctx
        self.node = world.add_node('srv', '10.0.0.1',
                                   root=ctx.scratch / 'srv')
        self.node.root.mkdir(exist_ok=True)
        self.app = world.add_node('app', '10.0.1.1')
        self.mgr = world.add_node('mgr', '10.0.1.2')
        self.n_inc = 0
        self.proc = None
        self.task = None
        self.module = None
        self.backend = None
        self.client = None
        self.cmds = []
        self._n = itertools.count(1)
        self._m = itertools.count(1)
        self.cmd_events = collections.defaultdict(list)
        self.hist = {}              # (inc, persisted) -> [(t, event)]
        self.ids = {False: set(), True: set()}
        self.queries = []           # (t, params, json)
        self.healed = False
        self.stopping = False
        self.final = []
        self.files = ctx.scratch / 'files'
        self.files.mkdir()

    def check(self, kind, cond, msg):
        return self.ctx.check('C32', kind, cond, msg)

    # server

    def start(self):
        if self.stopping or self.proc and self.proc.alive:
            return
        self.n_inc += 1
        self.proc = self.node.spawn(f'p{self.n_inc}')
        self.proc.start(self.server_main, self.proc, self.n_inc)

    async def server_main(self, proc, inc):
        from hat.event.server.main import async_main
        plan = self.plan
        real = {'module': 'hat.event.backends.memory'}
        if plan['backend'] == 'lmdb':
            real = {'module': 'hat.event.backends.lmdb',
                    'db_path': str(self.node.root / 'event.db'),
                    'identifier': None, 'flush_period': 4,
                    'cleanup_period': 60, 'conditions': [],
                    'latest': {'subscriptions': [['*']]},
                    'timeseries': [{'order_by': 'TIMESTAMP',
                                    'subscriptions': [['*']]},
                                   {'order_by': 'SOURCE_TIMESTAMP',
                                    'subscriptions': [['*']]}]}
        conf = {'type': 'event', 'name': 'srv', 'server_id': plan['sid'],
                'backend': {'module': 'sim.mgrmod', 'inc': inc, 'real': real,
                            'delay': plan['qdelay']},
                'modules': [dict(plan['module'], module='sim.mgrengine')],
                'eventer_server': {'host': self.node.host, 'port': PORT}}
        if plan['token']:
            conf['server_token'] = plan['token']
        self.task = asyncio.get_running_loop().create_task(async_main(conf))
        await asyncio.wait([self.task])
        self.w.trace('server exit', inc)
        proc.kill()
        self.node.disk.crash(False)

    def on_events(self, inc, persisted, events):
        hist = self.hist.setdefault((inc, persisted), [])
        ids = self.ids[persisted]
        for event in events:
            hist.append((self.w.now, event))
            ids.add((event.id.server, event.id.session, event.id.instance))
            if not persisted and event.type[0] == 'cmd':
                self.on_cmd_event(event)

    def on_cmd_event(self, event):
        n = int(event.type[1])
        cmd = self.cmds[n - 1]
        self.cmd_events[n].append(event)
        self.check('registered-twice', len(self.cmd_events[n]) == 1,
                   lambda: f'{cmd}: {self.cmd_events[n]}')
        self.check('after-failure', cmd.result != ('exit', 1),
                   lambda: f'{cmd}: registered although command failed')
        typ, ts, payload = cmd.want
        got = None if event.payload is None else (
            ('binary', event.payload.type, bytes(event.payload.data))
            if hasattr(event.payload, 'type') else
            ('json', json.dumps(event.payload.data, sort_keys=True)))
        self.check('content', (event.type, got) == (typ, payload),
                   lambda: f'{cmd}: registered {event}')
        if ts == 'now':
            t = event.source_timestamp
            ok = t is not None
        else:
            ok = event.source_timestamp == ts
        self.check('content', ok, lambda: f'{cmd}: registered {event}, '
                                          f'source timestamp {ts}')

    def on_output(self, cmd):
        if cmd.spec['c'] != 'subscribe':
            return
        known = self.ids[cmd.spec['persisted']]
        for line in cmd.lines[cmd.n_lines:]:
            for event in json.loads(line):
                i = event['id']
                i = i['server'], i['session'], i['instance']
                self.check('too-soon', i in known,
                           lambda: f'{cmd}: printed event {i} which is not '
                                   f'notified by the server')
        cmd.n_lines = len(cmd.lines)

    def on_query(self, params, result):
        self.queries.append(
            (self.w.now, params,
             {'events': [event_json(i) for i in result.events],
              'more_follows': result.more_follows}))

    # application which registers events

    def start_app(self):
        self.app.spawn('p').start(self.app_main)

    async def app_main(self):
        from hat.drivers import tcp
        from hat.event import eventer
        while True:
            try:
                client = await eventer.connect(
                    tcp.Address(self.node.host, PORT), 'app')
            except Exception:
                await asyncio.sleep(0.3)
                continue
            self.client = client
            try:
                await client.wait_closing()
            finally:
                self.client = None
            await asyncio.sleep(0.1)

    def feed(self, item):
        if item.get('remote'):
            if (self.proc.alive and self.backend and self.backend.is_open and
                    self.task and not self.task.done()):
                self.proc.start(self.remote_register, self.backend, item)
            return
        if self.client is None or not self.client.is_open:
            return
        from hat.event import common
        events = [common.RegisterEvent(
            type=tuple(t),
            source_timestamp=None if ts is None else common.Timestamp(ts, 0),
            payload=common.EventPayloadJson(JSON_DATA[p]))
            for t, ts, p in item['events']]
        self.app.procs[0].start(self.app_register, self.client, events)

    async def remote_register(self, backend, item):
        from hat.event import common
        session = next(self._m)
        now = common.now()
        events = [common.Event(
            id=common.EventId(1, session, n + 1), type=tuple(t),
            timestamp=now,
            source_timestamp=None if ts is None else common.Timestamp(ts, 0),
            payload=common.EventPayloadJson(JSON_DATA[p]))
            for n, (t, ts, p) in enumerate(item['events'])]
        try:
            await backend.register(events)
        except common.BackendClosedError:
            pass

    async def app_register(self, client, events):
        from hat import aio
        try:
            await client.register(events)
        except (ConnectionError, aio.QueueClosedError):
            pass

    # commands

    def command(self, spec, calm=False):
        cmd = Cmd(next(self._n), spec, calm)
        self.cmds.append(cmd)
        cmd.argv, stdin = self.make_argv(cmd)
        cmd.proc = self.mgr.spawn(f'c{cmd.n}')
        cmd.proc.data['cmd'] = cmd
        cmd.t = self.w.now
        cmd.inc = self.n_inc
        cmd.first = {k: len(v) for k, v in self.hist.items()}
        cmd.proc.start(self.cmd_main, cmd, stdin)
        if 'cancel' in spec:
            self.w.after(ns(spec['cancel']), self.cancel, cmd)
        return cmd

    def cancel(self, cmd):
        if cmd.result is None and cmd.proc.alive and cmd.task:
            self.w.faults['cancelled_command'] += 1
            cmd.cancelled = True
            cmd.proc.call(cmd.task.cancel)

    def make_argv(self, cmd):
        from hat.event import common
        spec = cmd.spec
        argv = ['--host', self.node.host]
        if spec['name']:
            argv += ['--client-name', spec['name']]
        if spec['token']:
            argv += ['--client-token', spec['token']]
        argv.append(spec['c'])
        stdin = b''

        def timestamp(t):
            if t == 'now':
                return t
            us = round(t * 1000000)
            return common.Timestamp(us // 1000000, us % 1000000)

        def option(name, conv=str):
            if name in spec:
                argv.append(f'--{name.replace("_", "-")}={conv(spec[name])}')

        def join(value):
            return ','.join(str(i) for i in value)

        if spec['c'] == 'register':
            typ = ('cmd', str(cmd.n), *spec['type'])
            kind = spec['payload']
            if spec['ts'] is not None:
                argv.append(f'--source-timestamp={spec["ts"]}')
            if spec['explicit']:
                argv += ['--payload-type', kind]
            if kind in ('json', 'yaml'):
                # json is subset of yaml
                content = json.dumps(spec['data']).encode()
                payload = 'json', json.dumps(spec['data'], sort_keys=True)
            elif kind == 'toml':
                content = TOML.encode()
                payload = 'json', json.dumps(TOML_DATA, sort_keys=True)
            elif kind == 'binary':
                content = bytes.fromhex(spec['data'])
                payload = 'binary', spec['btype'] or '', content
                if spec['btype'] is not None:
                    argv += ['--binary-type', spec['btype']]
            else:
                content = b''
                payload = None
            if spec['path'] == 'stdin':
                stdin = content
                if cmd.n % 2:
                    argv += ['--payload-path', '-']
            else:
                ext = ('.dat' if spec['path'] == 'other' else
                       {'binary': '.bin', 'none': ''}.get(kind, f'.{kind}'))
                path = self.files / f'{cmd.n}{ext}'
                path.write_bytes(content)
                argv += ['--payload-path', str(path)]
            argv.append('/'.join(typ))
            ts = None if spec['ts'] is None else timestamp(spec['ts'])
            cmd.want = typ, ts, payload

        elif spec['c'] == 'query':
            argv.append(spec['q'])
            if spec['q'] == 'server':
                argv.append(str(spec['server_id']))
                if spec['persisted']:
                    argv.append('--persisted')
            for name in ('t_from', 't_to', 'source_t_from', 'source_t_to',
                         'order', 'order_by', 'max_results'):
                option(name)
            option('last_event_id', join)
            if 'types' in spec:
                argv += ['--event-types',
                         *('/'.join(i) for i in spec['types'])]
            types = ([tuple(i) for i in spec['types']]
                     if 'types' in spec else None)
            last = (common.EventId(*spec['last_event_id'])
                    if 'last_event_id' in spec else None)
            if spec['q'] == 'latest':
                cmd.want = 'QueryLatestParams', {'event_types': types}
            elif spec['q'] == 'server':
                cmd.want = 'QueryServerParams', {
                    'server_id': spec['server_id'],
                    'persisted': spec['persisted'],
                    'max_results': spec.get('max_results'),
                    'last_event_id': last}
            else:
                cmd.want = 'QueryTimeseriesParams', {
                    'event_types': types,
                    **{k: timestamp(spec[k]) if k in spec else None
                       for k in ('t_from', 't_to', 'source_t_from',
                                 'source_t_to')},
                    'order': common.Order[spec.get('order', 'DESCENDING')],
                    'order_by': common.OrderBy[
                        spec.get('order_by', 'TIMESTAMP')],
                    'max_results': spec.get('max_results'),
                    'last_event_id': last}
        else:
            if spec['server_id'] is not None:
                argv += ['--server-id', str(spec['server_id'])]
            if spec['persisted']:
                argv.append('--persisted')
            argv += ['/'.join(i) for i in spec['types']]
        return argv, stdin

    async def cmd_main(self, cmd, stdin):
        w = self.w
        loop = asyncio.get_running_loop()
        captured = []
        result = self.call_main(cmd, stdin, captured.append)
        if result is None:
            return
        if captured:
            cmd.task = loop.create_task(outcome(captured[0]))
            await asyncio.wait([cmd.task])
            if w.stopped:
                return
            if cmd.task.cancelled():
                result = 'cancelled', None
            else:
                # what `main` does with the result of its coroutine

                def run_asyncio(coro):
                    coro.close()
                    value, exc = cmd.task.result()
                    if exc is not None:
                        raise exc
                    return value

                result = self.call_main(cmd, stdin, run_asyncio)
                if result is None:
                    return
        cmd.result = result
        cmd.t_end = w.now
        w.trace('cmd', cmd.n, cmd.spec['c'], repr(result))
        w.probes[f'manager_{cmd.spec["c"]}_{result[0]}'
                 f'{result[1] if result[0] == "exit" else ""}'] += 1
        if w.stopped:
            return
        self.on_result(cmd)
        cmd.proc.kill()

    def call_main(self, cmd, stdin, run_asyncio):
        from hat import aio
        from hat.event.manager import main as manager
        old = (sys.argv, sys.stdin, sys.stderr, aio.run_asyncio,
               aio.init_asyncio)
        called = []

        def run(coro, **kwargs):
            called.append(coro)
            return run_asyncio(coro)

        try:
            sys.argv = ['hat-event-manager', *cmd.argv]
            sys.stdin = io.TextIOWrapper(io.BytesIO(stdin), 'utf-8')
            sys.stderr = io.StringIO()
            aio.run_asyncio = run
            aio.init_asyncio = lambda *args, **kwargs: None
            return 'exit', manager.main() or 0
        except SystemExit as e:
            if called:
                return 'exit', e.code or 0
            self.ctx.violate('C32', 'usage',
                             f'{cmd}: {e!r} {sys.stderr.getvalue()[-300:]}')
        except Exception as e:
            if called:
                return 'error', e
            self.ctx.violate('C32', 'main', f'{cmd}: {e!r}')
        finally:
            (sys.argv, sys.stdin, sys.stderr, aio.run_asyncio,
             aio.init_asyncio) = old

    def refused(self, cmd):
        token = cmd.spec['token']
        return token is not None and token != self.plan['token']

    def on_result(self, cmd):
        spec = cmd.spec
        kind, value = cmd.result
        self.ctx.evals['C32'] += 1
        if kind == 'cancelled':
            self.check('cancelled', cmd.cancelled,
                       lambda: f'{cmd}: cancelled')
            return
        if kind == 'error':
            expected = (isinstance(value, (OSError, asyncio.TimeoutError)) or
                        self.refused(cmd) and
                        type(value).__name__ == 'EventerInitError' or
                        type(value).__name__ in ('QueueClosedError',
                                                 'EventerInitError') and
                        not cmd.calm)
            self.check('exception', expected, lambda: f'{cmd}: {value!r}')
            self.check('calm', not cmd.calm or self.refused(cmd) or
                       self.stopping, lambda: f'{cmd}: {value!r}')
            return
        self.check('not-refused', not self.refused(cmd),
                   lambda: f'{cmd}: {cmd.result} although token is wrong')
        if spec['c'] == 'register':
            n = len(self.cmd_events[cmd.n])
            if value == 0:
                self.check('not-registered', n == 1,
                           lambda: f'{cmd}: exit code 0 although event is '
                                   f'registered {n} times')
            else:
                self.check('exit-code', value == 1,
                           lambda: f'{cmd}: exit code {value!r}')
                self.check('failure', n == 0,
                           lambda: f'{cmd}: exit code {value!r} although '
                                   f'event is registered')
                self.check('calm', not cmd.calm,
                           lambda: f'{cmd}: exit code {value!r} although '
                                   f'server is operational')
        elif spec['c'] == 'query':
            self.check('exit-code', value == 0,
                       lambda: f'{cmd}: exit code {value!r}')
            self.check_query(cmd)
        else:
            self.check('exit-code', value == 0,
                       lambda: f'{cmd}: exit code {value!r}')
            self.check_subscribe(cmd)

    def check_query(self, cmd):
        lines = cmd.lines
        if not self.check('output', len(lines) == 1,
                          lambda: f'{cmd}: printed {lines}'):
            return
        got = json.loads(lines[0])
        name, fields = cmd.want

        def match(params):
            if type(params).__name__ != name:
                return False
            for k, v in fields.items():
                p = getattr(params, k)
                if v == 'now':
                    if p is None:
                        return False
                elif k == 'event_types' and v is not None:
                    if p is None or [tuple(i) for i in p] != v:
                        return False
                elif p != v:
                    return False
            return True

        answers = [i for t, params, i in self.queries
                   if t >= cmd.t and match(params)]
        if not self.check('query', bool(answers),
                          lambda: f'{cmd}: server was not asked for '
                                  f'{cmd.want}: {self.queries[-2:]}'):
            return
        self.check('answer', any(same_json(got, i) for i in answers),
                   lambda: f'{cmd}: printed {got} expected one of '
                           f'{answers[-2:]}')

    def expected(self, cmd, inc):
        """Events notified to command in incarnation of server"""
        spec = cmd.spec
        types = spec['types'] or [['*']]
        hist = self.hist.get((inc, spec['persisted']), [])
        first = cmd.first.get((inc, spec['persisted']), 0)
        return [(t, event_json(e)) for t, e in hist[first:]
                if any(model.type_matches(e.type, tuple(i)) for i in types) and
                spec['server_id'] in (None, e.id.server)]

    def check_subscribe(self, cmd, strict_from=None):
        got = [i for line in cmd.lines for i in json.loads(line)]
        if not got and strict_from is None:
            return
        if got:
            self.w.probes['manager_subscribed'] += 1
        for inc in range(cmd.inc, self.n_inc + 1):
            exp = self.expected(cmd, inc)
            texp = [json.dumps(e, sort_keys=True) for _, e in exp]
            tgot = [json.dumps(e, sort_keys=True) for e in got]
            n = len(tgot)
            for i in range(len(texp) - n + 1):
                if texp[i:i + n] != tgot:
                    continue
                if strict_from is not None and (
                        any(t >= strict_from for t, _ in exp[:i]) or
                        i + n < len(exp)):
                    continue
                self.ctx.evals['C32'] += n
                return
        self.ctx.violate('C32', 'subscribe',
                         f'{cmd}: printed {[i["id"] for i in got]}, '
                         f'notified {[i["id"] for _, i in exp]}')

    # faults

    def fault(self, f):
        w = self.w
        k = f['f']
        w.trace('fault', k)
        if k == 'restart':
            if self.module and self.module.is_open and self.proc.alive:
                w.faults['engine_restart'] += 1
                self.proc.call(self.module.engine.restart)
        elif k == 'crash':
            if self.proc.alive:
                w.faults['crash_power' if f['power'] else 'crash_kill'] += 1
                self.node.crash(f['power'])
            w.after(ns(f['delay']), self.start)
        elif k == 'stop':
            if self.proc.alive and self.task and not self.task.done():
                w.faults['graceful_stop'] += 1
                self.proc.call(self.task.cancel)
            w.after(ns(f['delay'] + 2), self.start)
        elif k == 'reset':
            w.net.reset(self.mgr, self.node)
        elif k == 'part':
            w.net.partition(self.mgr, self.node)
            w.after(ns(f['d']), w.net.heal, self.mgr, self.node)
        elif k == 'stall':
            self.proc.stall(ns(min(f['d'], 5)))
        elif k == 'slow':
            w.faults['slow_link'] += 1
            w.net.link(self.mgr, self.node).extra_latency = ns(
                min(f['d'], 1))
        elif k == 'mcrash':
            for cmd in self.cmds:
                if cmd.proc.alive and cmd.result is None:
                    w.faults['crash_kill'] += 1
                    cmd.killed = True
                    cmd.proc.kill(f['power'])

    # run

    def run(self):
        w = self.w
        plan = self.plan
        self.start()
        self.start_app()
        for spec in plan['cmds']:
            w.at(ns(0.05 + spec['t']), self.command, spec)
        for item in plan['feed']:
            w.at(ns(0.05 + item['t']), self.feed, item)
        for f in plan['faults']:
            w.at(ns(0.05 + f['t']), self.fault, f)
        w.run(ns(plan['horizon'] + 3))
        if w.stopped:
            return
        w.net.heal_all()
        w.net.link(self.mgr, self.node).extra_latency = 0
        w.calm()
        self.start()
        w.run(w.now + 30 * NS)
        if w.stopped:
            return
        self.start()
        w.run(w.now + 120 * NS)
        if w.stopped:
            return
        for cmd in self.cmds:
            if cmd.killed or cmd.spec['c'] == 'subscribe':
                continue
            self.check('pending', cmd.result is not None,
                       lambda: f'{cmd} is pending for '
                               f'{(w.now - cmd.t) / NS:.0f} s')
        self.calm_phase()

    def calm_phase(self):
        w = self.w
        plan = self.plan
        rng = w.rng('calm')
        good = {'name': None, 'token': plan['token']}
        subs = [self.command(dict(gen_subscribe(rng, plan['sid']), **good), True)
                for _ in range(2)]
        w.run(w.now + 10 * NS)
        if w.stopped:
            return
        t = w.now
        cmds = []
        for _ in range(4):
            for spec in (gen_register(rng), gen_query(rng, plan['sid'])):
                cmds.append(self.command(dict(spec, **good), True))
            self.feed({'events': [[pick(rng, TYPES), 7, 0]],
                       'remote': rng.random() < 0.3})
            w.run(w.now + int(rng.random() * 2) * NS)
            if w.stopped:
                return
        w.run(w.now + 20 * NS)
        if w.stopped:
            return
        for cmd in cmds:
            self.check('pending', cmd.result is not None,
                       lambda: f'{cmd} is pending for '
                               f'{(w.now - cmd.t) / NS:.0f} s')
        for cmd in subs:
            if self.check('subscribe-ended', cmd.result is None,
                          lambda: f'{cmd} ended: {cmd.result}'):
                self.check_subscribe(cmd, t)
        # commands end together with server
        self.stopping = True
        self.proc.call(self.task.cancel)
        w.run(w.now + 60 * NS)
        if w.stopped:
            return
        for cmd in self.cmds:
            self.check('open-after-stop', cmd.killed or
                       cmd.result is not None,
                       lambda: f'{cmd} did not end when server stopped')
        self.ctx.samples.append({
            'commands': [c.argv for c in self.cmds[:6]],
            'results': [repr(c.result) for c in self.cmds[:6]],
            'faults': plan['faults']})
