"""Database tools (copy, query, conversion) run as processes of their own.

The sources are databases of the current format, written by the real backend
(which may keep on writing while a tool reads), and databases of the previous
formats, written by the harness from documented record layouts.  Tools are run
through their command line entry points, are interrupted and made to fail at
storage operations, and are repeated until they succeed.  The result is
compared with the content of the source.
"""

import asyncio
import contextlib
import hashlib
import io
import json as pyjson
import os
import struct
import sys

from .. import core
from .. import disk
from ..core import NS, ns
from . import backend as bscn
from .backend import pick


REAL = ['hat.event.backends.lmdb.manager', 'hat.event.backends.lmdb.convert',
        'hat.event.backends.lmdb (source content, opening of results)',
        'liblmdb (real files)', 'hat.sbs', 'hat.json']
STUB = ['event loop', 'clock', 'executor thread scheduling',
        'writer of v0.6 and v0.7 databases']

BOUND = 60 * NS

KINDS = ['any', 'any', 'any', 'open', 'opened', 'open_db', 'begin_write',
         'begin_read', 'put', 'put', 'commit', 'committed', 'read', 'close']

NEW = ['SYSTEM_SETTINGS', 'SYSTEM_LAST_EVENT_ID', 'SYSTEM_LAST_TIMESTAMP',
       'REF', 'LATEST_DATA', 'LATEST_TYPE', 'TIMESERIES_DATA',
       'TIMESERIES_PARTITION', 'TIMESERIES_COUNT']

SUBACTIONS = ['settings', 'last_event_id', 'last_timestamp', 'ref', 'latest',
              'partition', 'timeseries']


def generate(rng, prop, tier):
    mode = pick(rng, ['copy', 'copy', 'query', 'convert07', 'convert06'])
    big = tier != 'quick' and rng.random() < 0.3
    plan = {'scenario': 'tools', 'prop': prop, 'mode': mode,
            'ops': gen_content(rng, mode, big), 'world': {
                'preempt': pick(rng, [0, 0, 0.02, 0.2, 0.5])},
            'tool': gen_tool(rng, mode),
            'attempts': gen_attempts(rng),
            'dst': pick(rng, ['dst.db', 'dst', 'dst.v07', 'd.s.t']),
            'power': rng.random() < 0.3}
    if mode in ('copy', 'query'):
        plan['conf'] = bscn.gen_conf(rng, rng.random() < 0.3)
        plan['live'] = rng.random() < 0.5
        plan['live_t'] = round(rng.random() * 0.5, 5)
        plan['conf']['flush_period'] = pick(rng, [0.001, 0.02, 0.1])
        if plan['live']:
            plan['conf']['flush_period'] = pick(rng, [0.0005, 0.001, 0.005])
            plan['live_gap'] = pick(rng, [0.0002, 0.001, 0.005])
            plan['live_server'] = pick(rng, [1, 4])
            plan['world']['preempt'] = pick(rng, [0.2, 0.5, 0.9])
            plan['world']['job_delay_max'] = pick(rng, [0.0002, 0.001,
                                                        0.005])
            plan['world']['job_slow_p'] = pick(rng, [0.02, 0.1])
            plan['world']['job_slow_max'] = 0.05
            if rng.random() < 0.5:
                plan['attempts'] = []
    else:
        plan['live'] = False
        plan['server_id'] = pick(rng, [1, 1, 2, 5, 0])
        plan['partitions'] = gen_partitions(rng)
    return plan


def gen_content(rng, mode, big):
    n = pick(rng, [0, 1, 3, 8, 20, 40]) * (5 if big else 1)
    n_servers = pick(rng, [1, 1, 2, 3])
    ops = []
    for _ in range(n):
        op = {'s': int(rng.random() * n_servers),
              'new': rng.random() < 0.4,
              'type': int(rng.random() * len(bscn.TYPES)),
              'src': bscn.gen_src(rng)}
        if mode.startswith('convert'):
            op['payload'] = gen_old_payload(rng)
            op['latest'] = rng.random() < 0.9
            op['gone'] = rng.random() < 0.2
            op['dt'] = pick(rng, [0, 1, 1000, 1000000])
        else:
            op['payload'] = int(rng.random() * len(bscn.PAYLOADS))
            op['dt'] = pick(rng, [0, 0, 0.0001, 0.001, 0.02])
        ops.append(op)
    return ops


def gen_old_payload(rng):
    return pick(rng, [
        None, None, ['json', {'v': 1}], ['json', None], ['json', 'ž'],
        ['json', False], ['bin', ''], ['bin', '00ff10'], ['bin', '07' * 1500],
        ['sbs', None, 'Type', 'a0b1'], ['sbs', 'Mod', 'Type', ''],
        ['sbs', '', 'T', '01']])


def gen_partitions(rng):
    parts = []
    for _ in range(pick(rng, [0, 1, 1, 2, 3])):
        p = {'order': pick(rng, ['TIMESTAMP', 'SOURCE_TIMESTAMP']),
             'subs': pick(rng, bscn.SUBS),
             'keep': pick(rng, [1, 1, 0.5])}
        if not any((p['order'], p['subs']) == (i['order'], i['subs'])
                   for i in parts):
            parts.append(p)
    return parts


def gen_tool(rng, mode):
    if mode == 'copy':
        return {'skip_latest': rng.random() < 0.25,
                'skip_timeseries': rng.random() < 0.25}
    if mode == 'query':
        tool = {'sub': pick(rng, SUBACTIONS)}
        if tool['sub'] in ('last_event_id', 'last_timestamp', 'ref',
                           'timeseries'):
            tool['server_id'] = pick(rng, [None, None, 1, 2, 7])
        if tool['sub'] in ('partition', 'timeseries'):
            tool['partition_id'] = pick(rng, [None, None, 1, 2])
        if tool['sub'] in ('latest', 'timeseries'):
            tool['types'] = pick(rng, [None, None, *bscn.SUBS])
        return tool
    return {'main': rng.random() < 0.6}


def gen_attempts(rng):
    """Faults of consecutive tool runs (the last run is without faults)"""
    attempts = []
    for _ in range(pick(rng, [0, 1, 1, 2, 3])):
        x = rng.random()
        skip = int(rng.random() ** 3 * pick(rng, [3, 30, 300]))
        if x < 0.45:
            attempts.append({'do': pick(rng, ['crash', 'power']),
                             'on': pick(rng, KINDS), 'skip': skip})
        elif x < 0.9:
            attempts.append({'do': 'fail', 'on': pick(rng, KINDS),
                             'skip': skip,
                             'err': pick(rng, ['mapfull', 'enospc', 'eio',
                                               'corrupted', 'oserror'])})
        else:
            attempts.append({'do': 'time',
                             't': round(rng.random() ** 2 * 0.02, 6)})
    return attempts


def run(world, plan, ctx):
    Driver(world, plan, ctx).run()


def dump(path, names):
    """Raw content of database"""
    env = disk._Environment(str(path), map_size=1 << 30, subdir=False,
                            max_dbs=16, readonly=True, lock=False)
    try:
        return dump_env(env, names)
    finally:
        env.close()


def dump_env(env, names):
    result = {}
    with env.begin() as txn:
        for name in names:
            try:
                db = env.open_db(name.encode(), txn=txn, create=False)
            except disk.lmdb.NotFoundError:
                result[name] = None
                continue
            result[name] = [(bytes(k), bytes(v))
                            for k, v in txn.cursor(db=db)]
    return result


def split_refs(value):
    refs = []
    while value:
        n = {4: 9, 6: 45}[value[0]]
        refs.append(value[:n])
        value = value[n:]
    return refs


class Driver:

    def __init__(self, world, plan, ctx):
        from hat.event import common
        self.c = common
        self.w = world
        self.plan = plan
        self.ctx = ctx
        self.mode = plan['mode']
        self.root = ctx.scratch / 'db'
        os.mkdir(self.root)
        self.node = world.add_node('db', '10.0.0.1', root=self.root)
        self.src = self.root / 'src.db'
        self.dst = self.root / plan['dst']
        self.states = []            # committed states of the live source
        self.backend = None
        self.stopped_backend = False
        self.tool_proc = None
        self.result = None
        self.out = ''

    def violate(self, kind, msg):
        self.ctx.violate('C29', kind, msg)

    def check(self, kind, cond, msg):
        return self.ctx.check('C29', kind, cond, msg)

    # main control

    def run(self):
        if self.mode in ('copy', 'query'):
            self.node.disk.on_commit = self.on_commit
            if not self.make_source():
                return
        else:
            self.make_old_source()
        self.src_hash = self.hash()
        attempts = [None, *reversed(self.plan['attempts'])]
        count = 0
        while attempts and not self.w.stopped:
            attempt = attempts.pop()
            self.w.stats['tool_runs'] += 1
            done = self.run_tool(attempt, count)
            count += 1
            if self.w.stopped:
                return
            if done:
                break
        if self.w.stopped:
            return
        self.ctx.samples.append({
            'mode': self.mode, 'tool': self.plan['tool'],
            'ops': len(self.plan['ops']), 'attempts': self.plan['attempts'],
            'live': self.plan['live'], 'runs': count})

    def hash(self):
        return hashlib.sha256(self.src.read_bytes()).hexdigest()

    def check_source(self):
        if self.plan['live'] and not self.stopped_backend:
            return
        self.check('source-modified',
                   self.src.exists() and self.hash() == self.src_hash,
                   'tool modified its source')

    # source of the current format

    def make_source(self):
        w = self.w
        self.proc = self.node.spawn('server')
        live = self.plan['live']
        self.ready = False
        self.proc.start(self.feed)
        limit = w.now + BOUND
        while not w.stopped and w.now < limit:
            w.run(w.now + ns(0.01))
            if self.ready if live else self.stopped_backend:
                break
        else:
            raise core.HarnessError('source not created')
        if live:
            w.run(w.now + ns(self.plan['live_t']))
        else:
            self.proc.kill()
        return not w.stopped

    async def feed(self):
        from hat import aio
        from hat.event.backends import lmdb
        conf = {**self.plan['conf'], 'db_path': str(self.src)}
        backend = await aio.call(lmdb.info.create, conf, None, None)
        ids = {}
        batch = []
        if self.plan['live']:
            self.ready = True
        for op in self.plan['ops']:
            if batch and (op['new'] or batch[0].id.server != op['s'] + 1):
                await backend.register(batch)
                batch = []
            s = op['s'] + 1
            session, instance = ids.get(s, (1, 0))
            if op['new']:
                session, instance = session + 1, 0
            ids[s] = session, instance + 1
            t = self.w.wall_ns(self.node) // 1000
            ts = self.c.Timestamp(t // 1000000, t % 1000000)
            if batch:
                ts = batch[0].timestamp
            batch.append(self.c.Event(
                id=self.c.EventId(s, session, instance + 1),
                type=bscn.TYPES[op['type']], timestamp=ts,
                source_timestamp=self.src_ts(op['src'], ts),
                payload=bscn.make_payload(self.c,
                                          bscn.PAYLOADS[op['payload']])))
            if op['dt']:
                await backend.register(batch)
                batch = []
                await asyncio.sleep(op['dt'])
        if batch:
            await backend.register(batch)
        await backend.flush()
        if self.plan['live']:
            s, n = self.plan['live_server'], 0
            session, instance = ids.get(s, (1, 0))
            while self.tool_proc is None or self.tool_proc.alive:
                await asyncio.sleep(self.plan['live_gap'])
                n += 1
                if n > 400:
                    continue
                t = self.w.wall_ns(self.node) // 1000
                await backend.register([self.c.Event(
                    id=self.c.EventId(s, session + n, 1),
                    type=bscn.TYPES[n % len(bscn.TYPES)],
                    timestamp=self.c.Timestamp(t // 1000000, t % 1000000),
                    source_timestamp=None, payload=None)])
        await backend.async_close()
        self.src_hash = self.hash()
        self.stopped_backend = True

    def src_ts(self, spec, ts):
        if spec is None:
            return None
        if spec[0] == 'rel':
            return self.c.Timestamp(ts.s + spec[1], ts.us)
        return self.c.Timestamp(spec[1], spec[2])

    def on_commit(self, env):
        if self.proc is not env._proc:
            return
        self.states.append((self.w.now, dump_env(env._real, NEW)))

    # tool runs

    def run_tool(self, attempt, count):
        w = self.w
        proc = self.node.spawn(f'tool{count}')
        self.tool_proc = proc
        self.result = None
        start = w.now
        if attempt:
            if attempt['do'] == 'time':
                w.after(ns(attempt['t']), self.crash_tool, proc)
            else:
                trig = dict(attempt)
                trig['proc'] = proc
                self.node.disk.arm(trig)
        proc.start(self.tool)
        limit = w.now + BOUND
        while (not w.stopped and w.now < limit and proc.alive and
               self.result is None):
            w.run(w.now + ns(0.005))
        if w.stopped:
            return
        self.node.disk.triggers.clear()
        if proc.alive and self.result is None:
            self.violate('pending', 'tool did not finish')
            return
        result, self.result = self.result, None
        proc.kill()
        w.trace('tool', self.mode, str(result))
        self.check_source()
        if w.stopped:
            return
        if result is not None and result[0] == 'ok':
            if self.plan['power'] and not (self.plan['live'] and
                                           not self.stopped_backend):
                w.faults['power_after_tool'] += 1
                self.node.crash(True)
            self.check_result(start)
            return True
        if attempt is None:
            self.violate('failed', f'tool failed without a reason: {result}')
            return
        if self.plan['live'] and not self.proc.alive:
            # the server was on the node that crashed
            self.stopped_backend = True
            self.plan = {**self.plan, 'live': False}
            self.src_hash = self.hash()
        # the user starts again
        if self.mode != 'query' and self.dst.exists():
            os.unlink(self.dst)
        return False

    def crash_tool(self, proc):
        if proc.alive and self.result is None:
            self.w.faults['crash_tool'] += 1
            self.node.crash(False)

    async def tool(self):
        loop = asyncio.get_running_loop()
        result = await loop.run_in_executor(None, self.ext_tool)
        self.result = result

    def ext_tool(self):
        argv, fn = self.command()
        out = io.StringIO()
        prev = sys.argv
        try:
            sys.argv = argv
            with contextlib.redirect_stdout(out), \
                    contextlib.redirect_stderr(io.StringIO()):
                fn()
        except SystemExit as e:
            if e.code:
                return 'exit', str(e.code)
        except Exception as e:
            return 'error', repr(e)
        finally:
            sys.argv = prev
        self.out = out.getvalue()
        return 'ok',

    def command(self):
        from hat.event.backends.lmdb.convert import main as convert
        from hat.event.backends.lmdb.manager import main as manager
        tool = self.plan['tool']
        if self.mode.startswith('convert'):
            if tool['main']:
                return ['convert', str(self.src), str(self.dst)], convert.main
            return [], lambda: convert.convert(self.src, self.dst)
        argv = ['manager', self.mode]
        if self.mode == 'copy':
            if tool['skip_latest']:
                argv.append('--skip-latest')
            if tool['skip_timeseries']:
                argv.append('--skip-timeseries')
            argv += [str(self.src), str(self.dst)]
            return argv, manager.main
        argv += ['--db', str(self.src), tool['sub']]
        for k in ('server_id', 'partition_id'):
            if tool.get(k) is not None:
                argv += ['--' + k.replace('_', '-'), str(tool[k])]
        if tool.get('types') is not None:
            argv += ['--event-types', *('/'.join(i) for i in tool['types'])]
        return argv, manager.main

    # results

    def check_result(self, start):
        if self.mode.startswith('convert'):
            return self.check_converted()
        if self.states and self.plan['live']:
            states = [s for t, s in self.states if t >= start]
            states += [s for t, s in self.states if t < start][-1:]
        else:
            states = [dump(self.src, NEW)]
        self.ctx.evals['C29'] += 1
        self.w.probes[f'tool_{self.mode}'] += 1
        if len(states) > 1:
            self.w.probes['tool_concurrent_commits'] += 1
        if self.mode == 'copy':
            got = dump(self.dst, NEW)
            got['REF'] = [(k, sorted(split_refs(v))) for k, v in got['REF']]
            wanted = [self.copied(s) for s in states]
            if got not in wanted:
                diff = [n for n in NEW if got[n] != wanted[-1][n]]
                self.violate('copy', f'copy is different from all {len(wanted)}'
                                     f' states of source in {diff}')
                return
            if not self.plan['live'] or self.stopped_backend:
                self.open_result(got, self.plan['conf'])
        else:
            try:
                got = [pyjson.loads(i) for i in self.out.splitlines()]
            except ValueError:
                self.violate('query', f'invalid output {self.out[:200]}')
                return
            wanted = [self.queried(s) for s in states]
            if self.plan['tool']['sub'] == 'ref':
                got = sort_json(got)
                wanted = [sort_json(i) for i in wanted]
            if got not in wanted:
                self.violate('query', f'{self.plan["tool"]}: got '
                                      f'{str(got)[:300]} wanted '
                                      f'{str(wanted[-1])[:300]}')

    def copied(self, state):
        tool = self.plan['tool']
        state = dict(state)
        if tool['skip_latest']:
            state['LATEST_DATA'] = state['LATEST_TYPE'] = []
        if tool['skip_timeseries']:
            for n in NEW[6:]:
                state[n] = []
        refs = []
        for k, v in state['REF']:
            v = sorted(i for i in split_refs(v)
                       if not (i[0] == 4 and tool['skip_latest'] or
                               i[0] == 6 and tool['skip_timeseries']))
            if v:
                refs.append((k, v))
        state['REF'] = refs
        return state

    def queried(self, state):
        from hat.event.backends.lmdb import common
        tool = self.plan['tool']
        sub = tool['sub']
        server_id = tool.get('server_id')
        partition_id = tool.get('partition_id')
        types = tool.get('types')

        def match(t):
            return types is None or any(match_type(t, i) for i in types)

        def event_id(x):
            return dict(zip(('server', 'session', 'instance'),
                            struct.unpack('>QQQ', x)))

        def timestamp(x):
            s, us = struct.unpack('>QI', x)
            return {'s': s - (1 << 63), 'us': us}

        def uint(x):
            return struct.unpack('>Q', x)[0]

        def event(x):
            e = common.db_defs[common.DbType.LATEST_DATA].decode_value(x)
            p = e.payload
            if isinstance(p, common.EventPayloadJson):
                p = {'type': 'JSON', 'data': p.data}
            elif p is not None:
                p = {'type': 'BINARY', 'subtype': p.type,
                     'data': bytes(p.data).hex()}
            return e, {
                'id': e.id._asdict(), 'type': list(e.type),
                'timestamp': e.timestamp._asdict(),
                'source_timestamp': (e.source_timestamp._asdict()
                                     if e.source_timestamp is not None
                                     else None),
                'payload': p}

        if sub == 'settings':
            return [{'settings_id': ['VERSION', 'IDENTIFIER'][uint(k)],
                     'data': pyjson.loads(v)}
                    for k, v in state['SYSTEM_SETTINGS']]
        if sub == 'last_event_id':
            return [event_id(v) for k, v in state['SYSTEM_LAST_EVENT_ID']
                    if server_id in (None, uint(k))]
        if sub == 'last_timestamp':
            return [timestamp(v) for k, v in state['SYSTEM_LAST_TIMESTAMP']
                    if server_id in (None, uint(k))]
        if sub == 'partition':
            return [{'partition_id': uint(k), 'data': pyjson.loads(v)}
                    for k, v in state['TIMESERIES_PARTITION']
                    if partition_id in (None, uint(k))]
        if sub == 'ref':
            result = []
            latest_types = {k: pyjson.loads(v)
                            for k, v in state['LATEST_TYPE']}
            for k, v in state['REF']:
                eid = event_id(k)
                if server_id not in (None, eid['server']):
                    continue
                for ref in split_refs(v):
                    if ref[0] == 4:
                        result.append({'event_id': eid, 'ref_type': 'latest',
                                       'event_type': latest_types[ref[1:]]})
                    else:
                        result.append({'event_id': eid,
                                       'ref_type': 'timeseries',
                                       'partition_id': uint(ref[1:9]),
                                       'timestamp': timestamp(ref[9:21])})
            return result
        if sub == 'latest':
            return [e for k, v in state['LATEST_DATA']
                    for e in [event(v)[1]] if match(e['type'])]
        return [e for k, v in state['TIMESERIES_DATA']
                for e in [event(v)[1]]
                if match(e['type']) and partition_id in (None, uint(k[:8])) and
                server_id in (None, e['id']['server'])]

    def open_result(self, raw, conf):
        """Result has to be accepted by backend"""
        # limits would start removing entries
        conf = {**conf, 'timeseries': [
            {k: v for k, v in i.items() if k != 'limit'}
            for i in conf['timeseries']]}
        before = {n: raw[n] for n in NEW[1:3]}
        got = {}

        async def use():
            from hat import aio
            from hat.event.backends import lmdb
            backend = await aio.call(
                lmdb.info.create, {**conf, 'db_path': str(self.dst),
                                   'cleanup_period': 1000,
                                   'flush_period': 1000}, None, None)
            for s in servers:
                got['id', s] = await backend.get_last_event_id(s)
                events = []
                last_id = self.c.EventId(s, 0, 0)
                while True:
                    r = await backend.query(self.c.QueryServerParams(
                        server_id=s, persisted=True, max_results=7,
                        last_event_id=last_id))
                    events += r.events
                    if not r.more_follows or not r.events:
                        break
                    last_id = r.events[-1].id
                got['events', s] = events
            r = await backend.query(self.c.QueryLatestParams(None))
            got['latest'] = list(r.events)
            for i in ('TIMESTAMP', 'SOURCE_TIMESTAMP'):
                r = await backend.query(self.c.QueryTimeseriesParams(
                    order=self.c.Order.ASCENDING,
                    order_by=self.c.OrderBy[i]))
                got[i] = list(r.events)
            got['done'] = True

        servers = {struct.unpack('>Q', k)[0]
                   for k, _ in before['SYSTEM_LAST_EVENT_ID']}
        servers |= {struct.unpack('>Q', k[:8])[0] for k, _ in raw['REF']}
        servers = sorted(servers)
        proc = self.node.spawn('check')

        async def guarded():
            try:
                await use()
            except Exception as e:
                got['error'] = repr(e)

        proc.start(guarded)
        limit = self.w.now + BOUND
        while (self.w.now < limit and not self.w.stopped and
               not ('done' in got or 'error' in got)):
            self.w.run(self.w.now + ns(0.01))
        if self.w.stopped:
            return
        if not self.check('open', 'done' in got,
                          f'backend can not use the result: '
                          f'{got.get("error")}'):
            return
        proc.kill()
        last = dict(before['SYSTEM_LAST_EVENT_ID'])
        for s in servers:
            v = last.get(struct.pack('>Q', s))
            want = (self.c.EventId(*struct.unpack('>QQQ', v)) if v
                    else self.c.EventId(s, 0, 0))
            self.check('last-id', got['id', s] == want,
                       lambda: f'last event id of server {s} is '
                               f'{got["id", s]} instead of {want}')
            want = [self.c.EventId(*struct.unpack('>QQQ', k))
                    for k, _ in raw['REF']]
            want = [i for i in want if i.server == s]
            have = [e.id for e in got['events', s]]
            self.check('server-query', have == want,
                       lambda: f'server {s} has events {have[:5]} instead of '
                               f'{want[:5]}')
        return got

    # previous formats

    def make_old_source(self):
        v06 = self.mode == 'convert06'
        self.old_events(v06)
        records = self.old_records(v06)
        env = disk._Environment(str(self.src), map_size=1 << 30, subdir=False,
                                max_dbs=16)
        with env.begin(write=True) as txn:
            for name, data in records.items():
                db = env.open_db(name.encode(), txn=txn)
                for k, v in data:
                    txn.put(k, v, db=db)
        env.close()

    def old_events(self, v06):
        """Events in order of registration"""
        sid = max(self.plan['server_id'], 1)
        ids = {}
        self.events = []
        self.last = {}
        t = 1600000000 * 1000000
        for op in self.plan['ops']:
            s = sid + op['s']
            session, instance = ids.get(s, (1, 0))
            if v06:
                session = instance = instance + 1 + (5 if op['new'] else 0)
            else:
                if op['new']:
                    session, instance = session + 1, 0
                instance += 1
            ids[s] = session, instance
            t += op['dt']
            ts = self.c.Timestamp(t // 1000000, t % 1000000)
            e = self.c.Event(
                id=self.c.EventId(s, session, instance),
                type=bscn.TYPES[op['type']], timestamp=ts,
                source_timestamp=self.src_ts(op['src'], ts),
                payload=op['payload'])
            if not (v06 and op['gone']):
                self.last[s] = e
            self.events.append((op, e))
        self.latest = {}
        for op, e in self.events:
            if op['latest'] and not op['gone']:
                self.latest[e.type] = e
        self.parts = []
        for i, p in enumerate(self.plan['partitions']):
            part = []
            for op, e in self.events:
                if op['gone'] or not any(match_type(e.type, q)
                                         for q in p['subs']):
                    continue
                ts = (e.timestamp if p['order'] == 'TIMESTAMP'
                      else e.source_timestamp)
                if ts is None:
                    continue
                if p['keep'] < 1 and (e.id.instance * 7) % 10 < 5:
                    continue
                part.append((ts, e))
            self.parts.append(part)
        if v06:
            # last ids are those of stored events
            self.last = {}
            for e in [*self.latest.values(),
                      *(e for part in self.parts for _, e in part)]:
                if (e.id.server not in self.last or
                        self.last[e.id.server].id < e.id):
                    self.last[e.id.server] = e

    def old_records(self, v06):
        from hat import sbs
        repo = sbs.Repository(SBS_V06 if v06 else SBS_V07)
        own = self.plan['server_id']

        def uint(x):
            return struct.pack('>Q', x)

        def ts_bytes(x):
            return struct.pack('>QI', x.s + (1 << 63), x.us)

        def id_bytes(x):
            return struct.pack('>QQQ', *x)

        def opt(x, fn=lambda i: i):
            return ('none', None) if x is None else ('value', fn(x))

        def payload(x):
            if x[0] == 'json':
                return 'json', pyjson.dumps(x[1])
            if x[0] == 'bin':
                return 'binary', bytes.fromhex(x[1])
            return 'sbs', {'module': opt(x[1]), 'type': x[2],
                           'data': bytes.fromhex(x[3])}

        def ts(x):
            return {'s': x.s, 'us': x.us}

        def event(x):
            if v06:
                eid = {'server': self.v06_server(x.id.server),
                       'instance': x.id.instance}
            else:
                eid = x.id._asdict()
            return repo.encode(
                'HatEvent.Event' if v06 else 'HatEventer.Event',
                {'id': eid, 'type': list(x.type), 'timestamp': ts(x.timestamp),
                 'sourceTimestamp': opt(x.source_timestamp, ts),
                 'payload': opt(x.payload, payload)})

        def js(x):
            return pyjson.dumps(x).encode()

        orders = {'TIMESTAMP': 1, 'SOURCE_TIMESTAMP': 2}
        partitions = [(uint(i + 1),
                       js({'order': orders[p['order']],
                           'subscriptions': sorted(p['subs'])}))
                      for i, p in enumerate(self.plan['partitions'])]
        if v06:
            last = self.last.get(max(own, 1))
            return {
                'system': [(b'server_id', uint(own))] + (
                    [(b'last_instance_id', uint(last.id.instance)),
                     (b'last_timestamp', ts_bytes(last.timestamp))]
                    if last else []),
                'latest': [(js(list(k)), event(e))
                           for k, e in self.latest.items()],
                'ordered_data': [
                    (uint(i + 1) + ts_bytes(t) + uint(e.id.instance * 8 +
                                                      e.id.server % 8),
                     event(e))
                    for i, part in enumerate(self.parts) for t, e in part],
                'ordered_partition': partitions,
                'ordered_count': [(uint(i + 1), js(len(part)))
                                  for i, part in enumerate(self.parts)
                                  if part]}
        refs = {}
        latest = []
        latest_types = []
        for i, (k, e) in enumerate(self.latest.items()):
            latest.append((uint(i + 1), event(e)))
            latest_types.append((uint(i + 1), js(list(k))))
            refs.setdefault(e.id, []).append(b'\x01' + uint(i + 1))
        data = []
        for i, part in enumerate(self.parts):
            for t, e in part:
                k = uint(i + 1) + ts_bytes(t) + id_bytes(e.id)
                data.append((k, event(e)))
                refs.setdefault(e.id, []).append(b'\x03' + k)
        return {
            'SYSTEM': [(uint(s), id_bytes(e.id) + ts_bytes(e.timestamp))
                       for s, e in self.last.items()],
            'LATEST_DATA': latest, 'LATEST_TYPE': latest_types,
            'ORDERED_DATA': data, 'ORDERED_PARTITION': partitions,
            'ORDERED_COUNT': [(uint(i + 1), uint(len(part)))
                              for i, part in enumerate(self.parts) if part],
            'REF': [(id_bytes(k), b''.join(v)) for k, v in refs.items()]}

    def v06_server(self, server):
        """Events of the server itself may be stored without its id"""
        if server == max(self.plan['server_id'], 1) and (
                self.plan['server_id'] == 0 or len(self.events) % 2):
            return 0
        return server

    def new_event(self, e):
        p = e.payload
        if p is not None:
            if p[0] == 'json':
                p = self.c.EventPayloadJson(p[1])
            elif p[0] == 'bin':
                p = self.c.EventPayloadBinary('', bytes.fromhex(p[1]))
            else:
                p = self.c.EventPayloadBinary(
                    p[2] if p[1] is None else f'{p[1]}.{p[2]}',
                    bytes.fromhex(p[3]))
        return e._replace(payload=p)

    def check_converted(self):
        from hat.event.backends.lmdb import common
        self.w.probes[f'tool_{self.mode}'] += 1
        raw = dump(self.dst, NEW)
        got = {}
        for name in NEW:
            d = common.db_defs[common.DbType[name]]
            try:
                got[name] = {d.decode_key(k): d.decode_value(v)
                             for k, v in raw[name] or []}
            except Exception as e:
                self.violate('convert', f'{name} can not be decoded: {e!r}')
                return

        def check(name, want):
            self.check('convert', got[name] == want,
                       lambda: f'{name}: got {str(got[name])[:300]} wanted '
                               f'{str(want)[:300]}')

        check('SYSTEM_SETTINGS', {common.SettingsId.VERSION: '0.9'})
        check('SYSTEM_LAST_EVENT_ID',
              {s: e.id for s, e in self.last.items()})
        check('SYSTEM_LAST_TIMESTAMP',
              {s: e.timestamp for s, e in self.last.items()})
        types = got['LATEST_TYPE']
        latest = {t: self.new_event(e) for t, e in self.latest.items()}
        self.check('convert', sorted(types.values()) == sorted(latest),
                   lambda: f'latest types {types} instead of {list(latest)}')
        check('LATEST_DATA', {k: latest.get(t) for k, t in types.items()})
        refs = {}
        for k, t in types.items():
            refs.setdefault(latest[t].id, set()).add(common.LatestEventRef(k))
        data = {}
        for i, part in enumerate(self.parts):
            for t, e in part:
                k = i + 1, t, e.id
                data[k] = self.new_event(e)
                refs.setdefault(e.id, set()).add(common.TimeseriesEventRef(k))
        check('TIMESERIES_DATA', data)
        check('TIMESERIES_PARTITION',
              {i + 1: {'order': common.OrderBy[p['order']].value,
                       'subscriptions': sorted(p['subs'])}
               for i, p in enumerate(self.plan['partitions'])})
        check('TIMESERIES_COUNT', {i + 1: len(part) for i, part in
                                   enumerate(self.parts) if part})
        check('REF', refs)
        if self.w.stopped:
            return
        conf = {'identifier': None, 'conditions': [],
                'latest': {'subscriptions': [['*']]},
                'timeseries': [{'order_by': p['order'],
                                'subscriptions': p['subs']}
                               for p in self.plan['partitions']]}
        res = self.open_result(raw, conf)
        if not res:
            return
        have = sorted(res['latest'], key=repr)
        want = sorted(latest.values(), key=repr)
        self.check('latest-query', key(have) == key(want),
                   lambda: f'latest query gives {have[:3]} instead of '
                           f'{want[:3]}')
        for name in ('TIMESTAMP', 'SOURCE_TIMESTAMP'):
            want = next((sorted(part, key=lambda i: (i[0], i[1].id))
                         for p, part in zip(self.plan['partitions'],
                                            self.parts)
                         if p['order'] == name), [])
            want = [self.new_event(e) for _, e in want]
            self.check('timeseries-query', res[name] == want,
                       lambda: f'timeseries query gives {res[name][:3]} '
                               f'instead of {want[:3]}')


def key(events):
    return [repr(i) for i in events]


def sort_json(items):
    return sorted(items, key=lambda i: pyjson.dumps(i, sort_keys=True))


def match_type(t, q):
    q = list(q)
    if q and q[-1] == '*':
        q.pop()
        if len(t) < len(q):
            return False
        t = t[:len(q)]
    return len(t) == len(q) and all(j in ('?', i) for i, j in zip(t, q))


_SBS = r"""
Timestamp = Record { s: Integer  us: Integer }

EventType = Array(String)

EventPayload = Choice {
    binary:  Bytes
    json:    String
    sbs:     Record { module: Optional(String) type: String data: Bytes }
}

Event = Record {
    id:               EventId
    type:             EventType
    timestamp:        Timestamp
    sourceTimestamp:  Optional(Timestamp)
    payload:          Optional(EventPayload)
}
"""

SBS_V06 = ('module HatEvent\n'
           'EventId = Record { server: Integer instance: Integer }\n' + _SBS)

SBS_V07 = ('module HatEventer\n'
           'EventId = Record { server: Integer session: Integer '
           'instance: Integer }\n' + _SBS)
