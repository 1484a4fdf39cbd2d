"""LMDB backend alone, driven through the public Backend interface.

Several concurrent clients register, query and flush while storage faults,
crashes, clock jumps and restarts are injected.  Every result is compared with
the reference model; after each crash/failure/restart the reopened database
has to equal the model of some prefix of registered sessions.
"""

import asyncio
import contextlib
import functools
import inspect
import itertools
import os
import shutil

from .. import core
from .. import model
from ..model import Mismatch
from . import shift_ids


REAL = ['hat.event.backends.lmdb (backend, environment, systemdb, latestdb, '
        'timeseriesdb, refdb, conditions, encoder)', 'hat.event.common',
        'hat.aio', 'py-lmdb with real database files']
STUB = ['event loop', 'clock', 'executor thread scheduling', 'client code']


TYPES = [('a',), ('a', 'x'), ('a', 'y'), ('b', 'x'), ('b', 'x', '1'),
         ('b', 'x', '2'), ('c', 'q'), ('c', 'q', 'long', 'type'), ('d', ''),
         ('z',)]

SUBS = [[['*']], [['a', '*']], [['b', '*']], [['?', 'x']], [['a', '?']],
        [['a', '*'], ['c', '*']], [['b', 'x', '?']], [['z']], [['d', '*']],
        [['c', 'q']], [['b', '*'], ['z']]]

PAYLOADS = [None, ['json', {'v': 1}], ['json', {'v': 2, 's': 'x'}],
            ['json', None], ['json', [1, 2.5, 'ž']], ['json', True],
            ['bin', 'type1', '00ff10'], ['bin', '', ''], ['big', 1500],
            ['big', 9000], ['json', {'v': False}]]

CONDITIONS = [
    {'type': 'json', 'data_type': 'object'},
    {'type': 'json', 'data_path': ['v'], 'data_value': 1},
    {'type': 'any', 'conditions': [
        {'type': 'json', 'data_path': ['v'], 'data_type': 'number'},
        {'type': 'json', 'data_type': 'array'}]},
    {'type': 'all', 'conditions': [
        {'type': 'json', 'data_type': 'object'},
        {'type': 'json', 'data_path': ['s'], 'data_type': 'string'}]},
    {'type': 'json', 'data_type': 'boolean'}]


def make_payload(common, spec):
    if spec is None:
        return None
    if spec[0] == 'json':
        return common.EventPayloadJson(spec[1])
    if spec[0] == 'bin':
        return common.EventPayloadBinary(spec[1], bytes.fromhex(spec[2]))
    if spec[0] == 'big':
        return common.EventPayloadBinary('big', bytes([7]) * spec[1])
    raise core.HarnessError(f'payload {spec}')


def pick(rng, items):
    return items[int(rng.random() * len(items))]


def gen_conf(rng, limits):
    parts = []
    n = pick(rng, [0, 1, 1, 2, 2, 3, 4])
    used = set()
    if limits and n == 0:
        n = 1
    for _ in range(n):
        order = pick(rng, ['TIMESTAMP', 'TIMESTAMP', 'SOURCE_TIMESTAMP'])
        subs = [['*']] if rng.random() < 0.5 else pick(rng, SUBS)
        key = order, repr(subs)
        if key in used:
            continue
        used.add(key)
        part = {'order_by': order, 'subscriptions': subs}
        if rng.random() < (0.9 if limits else 0.15):
            limit = {}
            if rng.random() < 0.6:
                limit['max_entries'] = pick(rng, [1, 3, 5, 10, 20])
            if rng.random() < 0.5:
                limit['duration'] = pick(rng, [1, 5, 20, 60])
            if rng.random() < 0.4:
                limit['min_entries'] = pick(rng, [1, 2, 4, 8])
            if rng.random() < 0.1:
                limit['size'] = pick(rng, [2000, 20000, 100000])
            part['limit'] = limit
        parts.append(part)
    conf = {'identifier': pick(rng, [None, 'ident']),
            'flush_period': pick(rng, [0.05, 0.5, 2, 5, 30]),
            'cleanup_period': pick(rng, [0.2, 1, 5, 60]) if not limits
            else pick(rng, [0.1, 0.5, 2]),
            'conditions': [],
            'latest': {'subscriptions': pick(rng, [[['*']], [['*']], [],
                                                   [['a', '*']],
                                                   [['?', 'x', '*']],
                                                   [['b', '*'], ['z']]])},
            'timeseries': parts}
    if rng.random() < 0.3:
        for _ in range(pick(rng, [1, 1, 2])):
            conf['conditions'].append({'subscriptions': pick(rng, SUBS[1:]),
                                       'condition': pick(rng, CONDITIONS)})
    if rng.random() < 0.6:
        conf['timeseries_max_results'] = pick(rng, [1, 3, 7, 20, 50])
    if rng.random() < 0.3:
        conf['timeseries_event_type_cache_size'] = pick(rng, [0, 1, 3])
    return conf


def gen_src(rng):
    r = rng.random()
    if r < 0.35:
        return None
    if r < 0.7:
        return ['rel', pick(rng, [0, -1, -5, 3, -20, 1])]
    if r < 0.95:
        return ['abs', int(rng.random() * 6), pick(rng, [0, 0, 500000])]
    return ['abs', pick(rng, [-1, -100, 0, 1 << 40]),
            pick(rng, [0, 999999])]


def gen_events(rng, big):
    n = pick(rng, [1, 1, 1, 2, 2, 3, 5, 8])
    if big and rng.random() < 0.05:
        n = 60
    return [[int(rng.random() * len(TYPES)), gen_src(rng),
             int(rng.random() * len(PAYLOADS))] for _ in range(n)]


def gen_types(rng):
    r = rng.random()
    if r < 0.25:
        return None
    if r < 0.35:
        return [['*']]
    if r < 0.6:
        return [list(pick(rng, TYPES)) for _ in range(pick(rng, [1, 2, 12]))]
    return [i for _ in range(pick(rng, [1, 2])) for i in pick(rng, SUBS)]


def gen_query(rng, kinds):
    kind = pick(rng, kinds)
    if kind == 'latest':
        return {'q': 'latest', 'types': gen_types(rng)}
    if kind == 'ts':
        q = {'q': 'ts', 'types': gen_types(rng),
             'order': pick(rng, ['ASCENDING', 'DESCENDING']),
             'order_by': pick(rng, ['TIMESTAMP', 'TIMESTAMP',
                                    'SOURCE_TIMESTAMP'])}
        for k in ('t_from', 't_to'):
            if rng.random() < 0.25:
                # relative to an existing event or to now
                q[k] = pick(rng, [['ev', rng.random(), 0], ['now', -3],
                                  ['ev', rng.random(), 1],
                                  ['ev', rng.random(), -1],
                                  ['now', -30], ['abs', 0, 0]])
        for k in ('source_t_from', 'source_t_to'):
            if rng.random() < 0.2:
                q[k] = pick(rng, [['abs', 2, 0], ['abs', 4, 500000],
                                  ['sev', rng.random(), 0],
                                  ['sev', rng.random(), 1],
                                  ['now', -5], ['abs', 0, 0]])
        if rng.random() < 0.5:
            q['max'] = pick(rng, [1, 2, 5, 10, 30])
        if rng.random() < 0.5:
            q['pages'] = 30
        elif rng.random() < 0.2:
            q['last'] = rng.random()
        return q
    q = {'q': 'server', 'server': pick(rng, [1, 1, 2, 3]),
         'persisted': rng.random() < 0.5}
    if rng.random() < 0.6:
        q['max'] = pick(rng, [1, 2, 5, 10])
    if rng.random() < 0.5:
        q['pages'] = 40
    elif rng.random() < 0.3:
        q['last'] = rng.random()
    return q


def generate(rng, prop, tier):
    limits = prop == 'C06' or rng.random() < 0.15
    crashy = prop in ('C01', 'C02') or rng.random() < 0.2
    conf = gen_conf(rng, limits)
    horizon = pick(rng, [3, 10, 30])
    n_ops = pick(rng, [8, 25, 60] if tier == 'quick' else [10, 40, 100, 200])
    kinds = {'C03': ['latest'] * 6 + ['ts', 'server'],
             'C04': ['ts'] * 8 + ['latest', 'server'],
             'C05': ['server'] * 8 + ['latest', 'ts'],
             'C06': ['ts'] * 4 + ['server'] * 2 + ['latest']}.get(
                 prop, ['latest', 'ts', 'ts', 'server', 'server'])
    p_query = {'C01': 0.15, 'C02': 0.1, 'C07': 0.1, 'C08': 0.1}.get(prop, 0.5)
    servers = pick(rng, [[1], [1, 2], [1, 2, 3], [2, 3]])
    grain = pick(rng, [0, 0, 1000, 100000, 1000000])
    ops = []
    for _ in range(n_ops):
        t = round(rng.random() * horizon, 4)
        r = rng.random()
        if r < p_query:
            op = gen_query(rng, kinds)
            op['a'] = 'q%d' % int(rng.random() * 3)
            if rng.random() < 0.05:
                op['cancel'] = round(rng.random() * 0.01, 5)
        elif r < p_query + 0.08:
            op = {'q': 'flush', 'a': 'f%d' % int(rng.random() * 2)}
            if rng.random() < 0.1:
                op['cancel'] = round(rng.random() * 0.01, 5)
        elif r < p_query + 0.11:
            op = {'q': 'lastid', 'server': pick(rng, [1, 2, 3, 9]), 'a': 'q0'}
        else:
            s = pick(rng, servers)
            op = {'q': 'reg', 'a': f's{s}', 'server': s,
                  'events': gen_events(rng, rng.random() < 0.2)}
            if rng.random() < 0.04:
                op['dup'] = True
        op['t'] = t
        ops.append(op)
    if rng.random() < 0.4:
        # bursts: concentrate operations around few instants
        centers = [round(rng.random() * horizon, 4) for _ in range(3)]
        for op in ops:
            if rng.random() < 0.7:
                op['t'] = round(pick(rng, centers) + rng.random() * 0.02, 5)
    if limits and rng.random() < 0.3:
        # partitions get empty between bursts
        n = pick(rng, [2, 3, 4])
        for op in ops:
            op['t'] = round(int(rng.random() * n) * 6 + rng.random() * 1.5, 5)
        horizon = n * 6
        conf['flush_period'] = pick(rng, [0.05, 0.5])
        for p in conf['timeseries']:
            if 'limit' in p:
                p['limit']['duration'] = 1
                p['limit'].pop('min_entries', None)
                if rng.random() < 0.7:
                    p['limit']['max_entries'] = pick(rng, [3, 5, 10])
    ops.sort(key=lambda o: o['t'])
    faults = []

    def when():
        return round(rng.random() * horizon, 4)

    if crashy:
        for _ in range(pick(rng, [1, 1, 2, 3])):
            r = rng.random()
            if r < 0.2:
                faults.append({'t': when(), 'f': 'crash',
                               'power': rng.random() < 0.5})
            elif r < 0.75:
                first = rng.random() < 0.25
                faults.append({
                    't': 0 if first else when(), 'f': 'arm',
                    'on': pick(rng, ['put', 'commit', 'committed', 'delete',
                                     'begin_write', 'any', 'open_db',
                                     'opened', 'read', 'close']
                               if not first else
                               ['open_db', 'put', 'commit', 'opened', 'any',
                                'begin_write', 'committed', 'open']),
                    'skip': int(rng.random() ** 2 * 40) if rng.random() < 0.7
                    else 0,
                    'do': pick(rng, ['crash', 'crash', 'power'])})
            else:
                faults.append({
                    't': when(), 'f': 'arm',
                    'on': pick(rng, ['put', 'commit', 'put', 'begin_write',
                                     'delete', 'commit']),
                    'skip': int(rng.random() ** 2 * 30),
                    'do': 'fail', 'count': pick(rng, [1, 1, 1, 3]),
                    'err': pick(rng, ['mapfull', 'enospc', 'eio'])})
        if rng.random() < 0.5:
            faults.append({'t': when(), 'f': 'clone',
                           'on': pick(rng, ['any', 'commit', 'committed',
                                            'put', 'now']),
                           'skip': int(rng.random() * 30)})
    if rng.random() < (0.3 if crashy else 0.15):
        faults.append({'t': when(), 'f': 'close'})
    if rng.random() < 0.3:
        faults.append({'t': when(), 'f': 'slow', 'on': 'any',
                       'skip': int(rng.random() * 50),
                       'dur': pick(rng, [0.01, 0.3, 3])})
    if rng.random() < 0.1:
        faults.append({'t': when(), 'f': 'stall',
                       'd': pick(rng, [0.05, 1, 8])})
    if limits and rng.random() < 0.2:
        faults.append({'t': when(), 'f': 'jump',
                       'd': pick(rng, [-30, -3, 2, 40, 100])})
    faults.sort(key=lambda f: f['t'])
    world = {'preempt': pick(rng, [0, 0.02, 0.1, 0.4]),
             'preempt_line': pick(rng, [0, 0, 0, 0.02]),
             'job_delay_max': pick(rng, [0.0005, 0.005, 0.05])}
    return shift_ids(rng, {
            'scenario': 'backend', 'prop': prop, 'conf': conf, 'ops': ops,
            'faults': faults, 'world': world, 'grain': grain,
            'same_clock': rng.random() < 0.5,
            'cb': pick(rng, ['sync', 'sync', 'async', 'none']) if
            prop not in ('C01', 'C02', 'C07') else pick(
                rng, ['sync', 'sync', 'async']),
            'horizon': horizon, 'knobs': gen_knobs(rng, prop)})


def gen_knobs(rng, prop):
    """Internal limits of the backend, lowered in part of the plans"""
    knobs = {}
    if rng.random() < (0.4 if prop == 'C06' else 0.15):
        knobs['cleanup_max_results'] = pick(rng, [1, 2, 5, 20])
    if rng.random() < 0.15:
        knobs['max_registered_count'] = pick(rng, [0, 2, 10, 50])
    if rng.random() < (0.3 if prop == 'C05' else 0.1):
        knobs['server_max'] = pick(rng, [1, 2, 5, 20])
    return knobs


@contextlib.contextmanager
def apply_knobs(knobs):
    from hat.event.backends.lmdb import backend
    from hat.event.backends.lmdb import refdb
    old = []

    def change(obj, name, value):
        old.append((obj, name, getattr(obj, name)))
        setattr(obj, name, value)

    server_max = None
    try:
        for name in ('cleanup_max_results', 'max_registered_count'):
            if name in knobs and isinstance(getattr(backend, name, None),
                                            int):
                change(backend, name, knobs[name])
        if 'server_max' in knobs and 'max_results' in inspect.signature(
                refdb.RefDb).parameters:
            server_max = knobs['server_max']
            change(refdb, 'RefDb', functools.partial(
                refdb.RefDb, max_results=server_max))
        yield server_max
    finally:
        for obj, name, value in reversed(old):
            setattr(obj, name, value)


def run(world, plan, ctx):
    with apply_knobs(plan.get('knobs', {})) as server_max:
        driver = Driver(world, plan, ctx)
        driver.server_max = server_max or 4096
        driver.run()


class Driver:

    def __init__(self, world, plan, ctx):
        from hat.event import common
        self.common = common
        self.w = world
        self.plan = plan
        self.ctx = ctx
        self.ids = [i + plan.get('id_shift', 0) for i in (1, 2, 3)]
        self.conf = plan['conf']
        self.mconf = model.Conf(self.conf)
        self.node = world.add_node('db', '10.0.0.1',
                                   root=ctx.scratch / 'db')
        os.mkdir(self.node.root)
        self.clone_node = world.add_node('clone', '10.0.0.9',
                                         root=ctx.scratch / 'clone')
        os.mkdir(self.clone_node.root)
        self.seq = itertools.count(1)
        self.session_seq = itertools.count()
        self.sessions = []          # current history (not lost)
        self.order = itertools.count()
        self.by_events = {}
        self.retention = model.Retention()
        self.retention.may_be_durable = self.may_be_durable
        self.event_session = {}     # id -> Session
        self.backend = None
        self.proc = None
        self.phase = 'init'
        self.queues = {}
        for op in plan['ops']:
            self.queues.setdefault(op['a'], []).append(op)
        self.max_wall = 0
        self.last_commit_call = -1      # seq of last commit call
        self.last_commit_done = -1
        self.announce_queue = []
        self.clones = []
        self.expect_failure = False     # storage failure was injected
        self.last_reg_wall = 0
        self.starts = 0
        self.mono_id = {}
        self.last_ts = {}
        self.pending_faults = 0
        self.rng = world.rng('driver')
        self.failed_open = 0
        self.hooks()

    # storage observation

    def hooks(self):
        disk = self.node.disk
        orig = disk.point

        def point(kind):
            if kind == 'commit':
                self.last_commit_call = next(self.seq)
            for c in list(self.plan_clones):
                if c['on'] in ('any', kind):
                    if c['skip'] > 0:
                        c['skip'] -= 1
                    else:
                        self.plan_clones.remove(c)
                        self.make_clone()
            orig(kind)

        self.plan_clones = []
        disk.point = point

    def may_be_durable(self, event_id):
        s = self.event_session.get(event_id)
        return s is not None and s.called < self.last_commit_call

    def make_clone(self):
        src = self.node.root / 'event.db'
        if not src.exists() or len(self.clones) >= 3:
            return
        dst = self.clone_node.root / f'clone{len(self.clones)}.db'
        shutil.copyfile(src, dst)
        self.w.faults['crash_clone'] += 1
        self.clones.append((dst, self.registered(), self.announced_ids(),
                            next(self.seq)))

    def announced_ids(self):
        return {s.idx for s in self.sessions if s.announced is not None}

    # helpers

    def wall(self):
        t = self.w.wall_ns(self.node) / core.NS
        if t > self.max_wall:
            self.max_wall = t
        return t

    def now_ts(self):
        t = self.w.wall_ns(self.node) // 1000
        self.wall()
        return self.common.Timestamp(t // 1_000_000, t % 1_000_000)

    def registered(self):
        return model.merge_order(self.sessions)

    # main control

    def run(self):
        w = self.w
        horizon = core.ns(self.plan['horizon'])
        for f in self.plan['faults']:
            self.pending_faults += 1
            w.at(core.ns(f['t']), self.fault, f)
        w.at(0, self.start)
        w.at(horizon + 20 * core.NS, w.calm)
        limit = (horizon + 400 * core.NS +
                 core.ns(4 * self.conf['cleanup_period']))
        while not w.stopped and self.phase != 'finished':
            if w.now >= limit:
                self.ctx.violate(['C01', 'C03', 'C04', 'C05', 'C07'],
                                 'stuck', f'backend stuck in {self.phase}')
                return
            w.run(min(limit, w.now + core.NS))
        self.ctx.samples.append({
            'conf': self.conf, 'ops': len(self.plan['ops']),
            'faults': self.plan['faults'],
            'sessions': len(self.sessions), 'restarts': self.starts - 1})

    def fault(self, f):
        w = self.w
        self.pending_faults -= 1
        if self.phase == 'finished':
            return
        kind = f['f']
        if kind == 'crash':
            if self.proc and self.proc.alive:
                self.crash(f.get('power', False))
        elif kind == 'arm':
            t = dict(f)
            if t['do'] == 'fail':
                t['cb'] = self.on_disk_fail
            else:
                t['cb'] = self.crash
            self.node.disk.arm(t)
        elif kind == 'slow':
            self.node.disk.arm({'on': f['on'], 'skip': f['skip'],
                                'do': 'slow', 'dur': core.ns(f['dur'])})
        elif kind == 'clone':
            if f['on'] == 'now':
                self.make_clone()
            else:
                self.plan_clones.append(dict(f))
        elif kind == 'stall':
            if self.proc and self.proc.alive:
                self.proc.stall(core.ns(f['d']))
        elif kind == 'jump':
            self.wall()
            self.node.jump_clock(core.ns(f['d']))
            self.wall()
        elif kind == 'close':
            if self.phase == 'running' and self.backend:
                w.faults['graceful_restart'] += 1
                self.proc.start(self.close_and_exit)
        else:
            raise core.HarnessError(f'fault {f}')

    def on_disk_fail(self):
        self.expect_failure = True

    def crash(self, power=False):
        if not self.proc or not self.proc.alive:
            return
        self.phase = 'down'
        self.backend = None
        self.node.crash(power)
        self.proc = None
        delay = int(self.rng.random() * 2 * core.NS)
        self.w.after(delay, self.start)

    def exit_proc(self, delay=None):
        """Process ended by itself"""
        if self.proc is None or not self.proc.alive:
            return
        self.phase = 'down'
        self.backend = None
        self.proc.kill()
        self.node.disk.crash(False)
        self.proc = None
        if delay is None:
            delay = int(self.rng.random() * core.NS)
        self.w.after(delay, self.start)

    def start(self):
        if self.proc:
            return
        self.starts += 1
        self.phase = 'starting'
        self.expect_failure = False
        self.proc = self.node.spawn(f'p{self.starts}')
        self.proc.start(self.main, self.proc)

    async def main(self, proc):
        from hat.event.backends import lmdb as lmdb_backend
        ctx = self.ctx
        conf = dict(self.conf, db_path=str(self.node.root / 'event.db'))
        announce = self.plan['cb'] != 'none'
        try:
            backend = await lmdb_backend.info.create(
                conf, self.on_registered if announce else None,
                self.on_flushed if announce else None)
        except Exception as e:
            if self.expect_failure or self.has_open_fault():
                self.exit_proc()
                return
            self.failed_open += 1
            ctx.violate(['C02', 'C01'], 'open',
                        f'database does not open again: {e!r}')
            self.phase = 'finished'
            return
        self.backend = backend
        self.phase = 'verify'
        try:
            state = await self.read_state(backend)
        except Exception as e:
            if self.expect_failure or not backend.is_open:
                await self.wait_down(backend)
                return
            ctx.violate(['C01', 'C03', 'C04', 'C05'], 'query-error',
                        f'query after start failed: {e!r}')
            self.phase = 'finished'
            return
        if not self.reconcile(state, self.registered(),
                              self.announced_ids(), 'restart'):
            self.phase = 'finished'
            return
        self.phase = 'running'
        tasks = [asyncio.create_task(core.guard(
            self.actor(backend, name, queue)))
                 for name, queue in self.queues.items()]
        watch = asyncio.create_task(core.guard(self.watch(backend)))
        if tasks:
            await asyncio.wait(tasks)
        while self.pending_faults:
            await asyncio.sleep(0.5)
        if not backend.is_open or self.phase != 'running':
            return
        watch.cancel()
        try:
            await self.final(backend)
        except self.common.BackendClosedError:
            await self.wait_down(backend)

    def has_open_fault(self):
        return False

    async def watch(self, backend):
        await backend.wait_closing()
        if self.phase != 'running':
            return
        await self.wait_down(backend)

    async def wait_down(self, backend):
        """Backend closed by itself"""
        ctx = self.ctx
        await backend.async_close()
        if not self.expect_failure:
            logs = [i for i in self.w.logs if i[3] == 'ERROR'][-3:]
            ctx.violate(['C01', 'C03', 'C04', 'C05', 'C06', 'C07'],
                        'backend-closed',
                        f'backend closed without a reason: {logs}')
        self.exit_proc()

    async def close_and_exit(self):
        backend = self.backend
        self.phase = 'closing'
        await self.close_backend(backend)
        self.exit_proc()

    async def close_backend(self, backend):
        before = [s for s in self.sessions if s.returned is not None]
        fails = self.expect_failure
        await backend.async_close()
        if not (fails or self.expect_failure) and self.plan['cb'] != 'none':
            for s in before:
                self.ctx.check(['C01', 'C07'], 'close-announce',
                               s.announced is not None,
                               lambda: f'{s} not persisted by graceful close')
        try:
            await backend.register([])
        except self.common.BackendClosedError:
            pass
        except Exception as e:
            self.ctx.violate('C07', 'closed-register', repr(e))
        if not (fails or self.expect_failure):
            for s in before:
                s.announced_count = max(s.announced_count, 1)
                if s.announced is None:
                    s.announced = next(self.seq)

    # callbacks

    def on_registered(self, events):
        s = self.find_session(events, True)
        if not self.ctx.check('C07', 'registered-unknown', s is not None,
                              lambda: f'unknown session registered '
                                      f'{model.fmt(events)}'):
            return
        self.ctx.check('C07', 'registered-twice', s.announced_reg is None,
                       lambda: f'{s} announced as registered twice')
        s.announced_reg = next(self.seq)
        if s.order is None:
            s.order = next(self.order)
        if self.plan['cb'] == 'async':
            return asyncio.sleep(self.rng.random() ** 4 * 0.2)

    def on_flushed(self, events):
        s = self.find_session(events)
        if not self.ctx.check('C07', 'persisted-unknown', s is not None,
                              lambda: f'unknown session persisted '
                                      f'{model.fmt(events)}'):
            return
        s.announced_count += 1
        self.ctx.check('C07', 'persisted-twice', s.announced_count == 1,
                       lambda: f'{s} announced as persisted twice')
        self.ctx.check(['C07', 'C01'], 'persisted-early',
                       s.called < self.last_commit_call,
                       lambda: f'{s} announced as persisted without commit')
        self.ctx.check('C07', 'persisted-before-registered',
                       s.announced_reg is not None,
                       lambda: f'{s} persisted before registered')
        earlier = [i for i in self.sessions
                   if i.order is not None and s.order is not None and
                   i.order < s.order and i.announced is None]
        self.ctx.check('C07', 'persisted-order', not earlier,
                       lambda: f'{s} persisted before {earlier}')
        s.announced = next(self.seq)
        self.w.trace('persisted', s.idx)
        for e in s.events:
            self.retention.persisted_at[e.id] = s.announced
        if len(self.clones) < 2 and self.rng.random() < 0.05:
            self.make_clone()
        if self.plan['cb'] == 'async':
            return asyncio.sleep(self.rng.random() ** 4 * 0.3)

    def find_session(self, events, reg=False):
        events = list(events)
        if not events:
            return None
        for s in self.sessions:
            if list(s.events) == events and (
                    s.announced_reg is None if reg else
                    s.announced is None):
                return s
        for s in reversed(self.sessions):
            if list(s.events) == events:
                return s

    # actors

    async def actor(self, backend, name, queue):
        while queue and backend.is_open and self.phase == 'running':
            op = queue[0]
            delay = core.ns(op['t']) - self.w.now
            if delay > 0:
                await asyncio.sleep(delay / core.NS)
                if not backend.is_open or self.phase != 'running':
                    return
            queue.pop(0)
            fn = getattr(self, 'op_' + op['q'])
            if 'cancel' in op:
                task = asyncio.create_task(core.guard(fn(backend, op)))
                await asyncio.wait([task], timeout=op['cancel'])
                task.cancel()
                await asyncio.wait([task])
                self.w.faults['cancelled_call'] += 1
                continue
            await fn(backend, op)

    def is_closed(self, backend):
        return not backend.is_open or self.phase != 'running'

    def make_src(self, spec):
        if spec is None:
            return None
        if spec[0] == 'abs':
            return self.common.Timestamp(spec[1], spec[2])
        t = self.now_ts()
        return self.common.Timestamp(t.s + spec[1], t.us if
                                     self.rng.random() < 0.5 else 0)

    async def op_reg(self, backend, op):
        common = self.common
        server = op['server']
        if op.get('dup'):
            old = [s for s in self.sessions if s.server == server]
            if not old:
                return
            events = list(old[int(self.rng.random() * len(old))].events)
            await self.register(backend, server, events, dup=True)
            return
        last = self.mono_id.get(server)
        if last is None:
            last = (await backend.get_last_event_id(server)).session
        sid = last + 1 + int(self.rng.random() ** 3 * 3)
        self.mono_id[server] = sid
        ts = self.now_ts()
        skew = (0 if self.plan.get('same_clock') else
                {1: 0, 2: 300_000, 3: -700_000}[
                    server - self.plan.get('id_shift', 0)])
        us = ts.s * 1_000_000 + ts.us + skew
        grain = self.plan['grain']
        if grain:
            us = us // grain * grain
        us = max(us, self.last_ts.get(server, 0))
        self.last_ts[server] = us
        ts = common.Timestamp(us // 1_000_000, us % 1_000_000)
        events = [common.Event(id=common.EventId(server, sid, i + 1),
                               type=TYPES[t], timestamp=ts,
                               source_timestamp=self.make_src(src),
                               payload=make_payload(common, PAYLOADS[p]))
                  for i, (t, src, p) in enumerate(op['events'])]
        await self.register(backend, server, events)

    async def register(self, backend, server, events, dup=False):
        s = model.Session(next(self.session_seq), server, events)
        s.called = next(self.seq)
        if self.plan['cb'] == 'none':
            s.order = next(self.order)
        self.sessions.append(s)
        if not dup:
            for e in events:
                self.event_session[e.id] = s
        self.last_reg_wall = self.w.now
        try:
            result = await backend.register(events)
        except self.common.BackendClosedError:
            self.ctx.check('C07', 'register-closed',
                           self.is_closed(backend), 'closed error while open')
            if s.announced_reg is None:
                self.sessions.remove(s)
            return
        except Exception as e:
            if self.is_closed(backend) or self.expect_failure:
                return
            self.ctx.violate(['C07', 'C03'], 'register-error', repr(e))
            return
        s.returned = next(self.seq)
        if s.order is None:
            s.order = next(self.order)
        self.ctx.check('C07', 'register-result',
                       result is not None and list(result) == events,
                       lambda: f'register returned {result}')
        if self.plan['cb'] != 'none':
            self.ctx.check('C07', 'registered-missing',
                           s.announced_reg is not None,
                           lambda: f'{s} not announced as registered')
        self.w.trace('registered', s.idx)

    async def op_flush(self, backend, op):
        before = [s for s in self.sessions if s.returned is not None]
        try:
            await backend.flush()
        except self.common.BackendClosedError:
            self.ctx.check('C07', 'flush-closed', self.is_closed(backend),
                           'closed error while open')
            return
        for s in before:
            if s.lost:
                continue
            if self.plan['cb'] == 'none':
                if s.announced is None:
                    s.announced = next(self.seq)
                continue
            self.ctx.check(['C07', 'C01'], 'flush-announce',
                           s.announced is not None,
                           lambda: f'{s} not persisted by flush')

    async def op_lastid(self, backend, op):
        issue = next(self.seq)
        server = op['server']
        try:
            result = await backend.get_last_event_id(server)
        except self.common.BackendClosedError:
            return
        done = next(self.seq)

        def judge(view):
            want = view.last_id.get(
                server, self.common.EventId(server, 0, 0))
            if result != want:
                raise Mismatch(f'last event id {result}, expected {want}')

        self.judge(['C08', 'C01'], 'last-id', issue, done, judge)

    # queries

    def make_time(self, spec):
        common = self.common
        if spec is None:
            return None
        if spec[0] == 'abs':
            return common.Timestamp(spec[1], spec[2])
        if spec[0] == 'now':
            t = self.now_ts()
            return common.Timestamp(t.s + spec[1], t.us)
        events = [e for s in self.sessions for e in s.events]
        if not events:
            return None
        e = events[int(spec[1] * len(events))]
        t = e.timestamp if spec[0] == 'ev' else e.source_timestamp
        if t is None:
            return None
        us = t.s * 1_000_000 + t.us + spec[2]
        return common.Timestamp(us // 1_000_000, us % 1_000_000)

    def some_id(self, x, server=None):
        ids = [e.id for s in self.sessions for e in s.events
               if server is None or e.id.server == server]
        return ids[int(x * len(ids))] if ids else None

    async def query(self, backend, params):
        """Returns (result, issue, done) or None"""
        issue = next(self.seq)
        self.wall()
        try:
            result = await backend.query(params)
        except self.common.BackendClosedError:
            return None
        except Exception as e:
            if self.is_closed(backend) or self.expect_failure:
                return None
            self.ctx.violate(['C03', 'C04', 'C05'], 'query-error',
                             f'{params}: {e!r}')
            return None
        self.wall()
        return result, issue, next(self.seq)

    async def op_latest(self, backend, op):
        common = self.common
        types = op['types']
        q = common.QueryLatestParams(
            event_types=None if types is None else [tuple(i) for i in types])
        r = await self.query(backend, q)
        if not r:
            return
        result, issue, done = r
        self.judge('C03', 'latest', issue, done,
                   lambda view: model.check_latest(view, q, result))

    async def op_ts(self, backend, op):
        common = self.common
        types = op['types']
        q = common.QueryTimeseriesParams(
            event_types=None if types is None else [tuple(i) for i in types],
            t_from=self.make_time(op.get('t_from')),
            t_to=self.make_time(op.get('t_to')),
            source_t_from=self.make_time(op.get('source_t_from')),
            source_t_to=self.make_time(op.get('source_t_to')),
            order=common.Order[op['order']],
            order_by=common.OrderBy[op['order_by']],
            max_results=op.get('max'),
            last_event_id=(self.some_id(op['last']) if 'last' in op
                           else None))
        seen = set()
        for _ in range(op.get('pages', 1)):
            r = await self.query(backend, q)
            if not r:
                return
            result, issue, done = r
            self.check_ts(q, result, issue, done)
            if self.w.stopped or not result.more_follows:
                return
            events = list(result.events)
            dup = [e for e in events if e.id in seen]
            self.ctx.check('C04', 'paging-dup', not dup,
                           lambda: f'{q}: {model.fmt(dup)} visited twice')
            seen.update(e.id for e in events)
            q = q._replace(last_event_id=events[-1].id)

    def check_ts(self, q, result, issue, done):
        desc = q.order == self.common.Order.DESCENDING
        found = []

        def judge(view):
            found[:] = [model.check_timeseries(view, q, result, desc,
                                               self.retention,
                                               self.max_wall)]

        if self.judge(['C04', 'C06'] if self.limited(q) else 'C04', 'ts',
                      issue, done, judge) and found[0]:
            p, allp, present, missing = found[0]
            # others could have been registered after the query
            missing = [e for e in missing if self.surely_before(e, issue)]
            if missing:
                self.w.probes['retention_missing'] += len(missing)
            try:
                self.retention.record(p, allp, present, missing, issue, done)
            except Mismatch as e:
                self.ctx.violate('C06', 'retention', str(e))

    def surely_before(self, e, issue):
        s = self.event_session.get(e.id)
        return (s is not None and s.returned is not None and
                s.returned < issue)

    def limited(self, q):
        p = self.mconf.find_partition(q.order_by.name, q.event_types)
        return p is not None and p.limit

    async def op_server(self, backend, op):
        common = self.common
        server = op['server']
        q = common.QueryServerParams(
            server_id=server, persisted=op['persisted'],
            max_results=op.get('max'),
            last_event_id=(self.some_id(op['last'], server)
                           if 'last' in op else None))
        for _ in range(op.get('pages', 1)):
            r = await self.query(backend, q)
            if not r:
                return
            result, issue, done = r
            self.check_server(q, result, issue, done)
            if self.w.stopped or not result.more_follows:
                return
            q = q._replace(last_event_id=list(result.events)[-1].id)

    def check_server(self, q, result, issue, done):

        def judge(view):
            model.check_server(
                view, q, result,
                lambda e: self.classify(view, e, q.persisted, issue),
                self.server_max)

        self.judge('C05', 'server', issue, done, judge,
                   persisted=q.persisted)

    def classify(self, view, e, persisted, issue):
        """Has an event to be / may it be visible by server query"""
        ok, latest, parts = self.mconf.info(e)
        r = 'no'
        for p in parts:
            if not p.limit:
                return 'must'
            if self.retention.removed.get(p.idx, {}).get(
                    e.id, issue + 1) < issue:
                continue
            r = 'may'
            try:
                self.retention.judge(p, view.parts[p.idx], e, [],
                                     self.max_wall)
            except Mismatch:
                return 'must'
        if latest:
            cur = view.latest.get(e.type, [])
            if e in cur:
                return 'must' if len(cur) == 1 else 'may'
            gone = all(self.retention.persisted_at.get(c.id, issue) < issue
                       for c in cur)
            if not gone:
                r = 'may'
        return r

    def judge(self, props, kind, issue, done, fn, persisted=False):
        """Result has to agree with the model for some choice of concurrent
        sessions"""
        if self.expect_failure:
            # changes of a failed flush are gone until backend closes itself
            self.w.stats['judge_failing'] += 1
            return False
        must, optional = [], []
        for s in self.registered():
            if persisted:
                sure = s.announced is not None and s.announced < issue
                possible = s.called < self.last_commit_call
            else:
                sure = s.returned is not None and s.returned < issue
                possible = s.called < done
            if sure:
                must.append(s)
            elif possible:
                optional.append(s)
        combos = model.prefixes_per_server(optional, 64)
        if combos is None:
            # persisted sets grow in registration order only
            combos = [optional[:i] for i in range(len(optional), -1, -1)]
            if not persisted and len({s.server for s in optional}) > 1:
                self.w.stats['judge_skipped'] += 1
                return False
        elif persisted:
            combos = [optional[:i] for i in range(len(optional), -1, -1)]
        error = None
        if isinstance(props, str):
            props = [props]
        for p in props:
            self.ctx.evals[p] += 1
        for combo in combos:
            view = model.build_view(self.mconf,
                                    model.merge_order(must + combo))
            try:
                fn(view)
                return True
            except Mismatch as e:
                error = error or e
        self.ctx.violate(props, kind, str(error))
        return False

    # state after restart

    async def read_state(self, backend):
        common = self.common
        state = {}
        state['latest'] = list((await backend.query(
            common.QueryLatestParams())).events)
        state['last'] = {i: await backend.get_last_event_id(i)
                         for i in self.ids}
        state['server'] = {}
        for i in self.ids:
            state['server'][i] = await self.pages(
                backend, common.QueryServerParams(
                    server_id=i, persisted=self.rng.random() < 0.7,
                    max_results=int(self.rng.random() * 20) + 1))
        state['parts'] = {}
        for p in self.mconf.partitions:
            if self.mconf.find_partition(p.order_by, p.subs) is not p:
                continue
            state['parts'][p.idx] = await self.pages(
                backend, common.QueryTimeseriesParams(
                    event_types=p.subs, order=common.Order.ASCENDING,
                    order_by=common.OrderBy[p.order_by],
                    max_results=None))
        return state

    async def pages(self, backend, q):
        out = []
        retries = 20
        first = q
        for _ in range(5000):
            r = await backend.query(q)
            events = list(r.events)
            out.extend(events)
            if not r.more_follows:
                if not events and out and retries:
                    # last visited event could have been removed by cleanup
                    retries -= 1
                    out = []
                    q = first
                    continue
                return out
            q = q._replace(last_event_id=events[-1].id)
        raise core.HarnessError('endless paging')

    def compare(self, view, state):
        """Returns list of (props, message)"""
        common = self.common
        bad = []
        for i in self.ids:
            want = view.last_id.get(i, common.EventId(i, 0, 0))
            if state['last'][i] != want:
                bad.append(('id', f'last event id {state["last"][i]}, '
                                  f'expected {want}'))
        try:
            model.check_latest(view, common.QueryLatestParams(),
                               common.QueryResult(state['latest'], False))
        except Mismatch as e:
            bad.append(('C03', f'latest: {e}'))
        missing_all = []
        for p in self.mconf.partitions:
            if p.idx not in state['parts']:
                continue
            got = state['parts'][p.idx]
            q = common.QueryTimeseriesParams(
                event_types=p.subs, order=common.Order.ASCENDING,
                order_by=common.OrderBy[p.order_by])
            expected = view.sorted_part(p)
            try:
                _, missing = model._check_ts_list(
                    p, expected, q, got, False, expected,
                    max(len(got), len(expected)), False, self.retention,
                    self.max_wall)
                missing_all.append((p, expected, got, missing))
            except Mismatch as e:
                bad.append(('C04', f'partition {p.idx}: {e}'))
        now = next(self.seq)
        for i in self.ids:
            q = common.QueryServerParams(server_id=i)
            try:
                model.check_server(
                    view, q, common.QueryResult(state['server'][i], False),
                    lambda e: self.classify_durable(view, e), 1 << 30)
            except Mismatch as e:
                bad.append(('C05', f'server {i}: {e}'))
        return bad, missing_all, now

    def classify_durable(self, view, e):
        ok, latest, parts = self.mconf.info(e)
        if latest and e in view.latest.get(e.type, []):
            return 'must' if len(view.latest[e.type]) == 1 else 'may'
        r = 'no'
        for p in parts:
            if not p.limit:
                return 'must'
            r = 'may'
            try:
                self.retention.judge(p, view.parts[p.idx], e, [],
                                     self.max_wall)
            except Mismatch:
                return 'must'
        if latest and len(view.latest.get(e.type, [])) > 1:
            r = 'may' if r == 'no' else r
        return r

    def reconcile(self, state, sessions, announced, what, clone=False):
        """Find the prefix described by durable state"""
        ctx = self.ctx
        self.wall()
        for p in ('C01', 'C02'):
            ctx.evals[p] += 1
        save = self.retention.may_be_durable
        self.retention.may_be_durable = lambda event_id: True
        try:
            return self._reconcile(state, sessions, announced, what, clone)
        finally:
            self.retention.may_be_durable = save

    def _reconcile(self, state, sessions, announced, what, clone):
        ctx = self.ctx
        ordered = [s for s in sessions if s.order is not None]
        floating = [s for s in sessions if s.order is None]
        low = 0
        for i, s in enumerate(ordered):
            if s.idx in announced:
                low = i + 1
        # C01: everything announced is there
        self.check_announced(state, ordered[:low], what)
        if self.w.stopped:
            return False
        choices = []
        for k in range(len(ordered), -1, -1):
            extra = (model.prefixes_per_server(floating, 16) or [[]]
                     if k == len(ordered) else [[]])
            for combo in extra:
                choices.append((k, combo))
        best = None
        for k, combo in choices:
            if k < low:
                break
            chosen = ordered[:k] + combo
            view = model.build_view(self.mconf, chosen)
            bad, missing_all, now = self.compare(view, state)
            if not bad:
                if clone:
                    return True
                for s in sessions:
                    if s not in chosen:
                        s.lost = True
                self.lost_cleanup(chosen)
                for p, expected, got, missing in missing_all:
                    if p.limit:
                        try:
                            self.retention.record(p, expected, got, missing,
                                                  now, now)
                        except Mismatch as e:
                            ctx.violate('C06', 'retention', str(e))
                self.w.trace('prefix', what, k, len(ordered))
                if k < len(ordered):
                    self.w.probes['sessions_lost_by_crash'] += (
                        len(ordered) - k)
                return True
            score = sum(1 for i in bad if i[0] == 'id'), len(bad)
            if best is None or score < best[0]:
                best = score, k, bad
        if best is None:
            return True
        props = {'C02'}
        for tag, _ in best[2]:
            if tag == 'id':
                props.add('C08')
            else:
                props.add(tag)
        if all(self.mconf.partitions[int(m.split()[1][:-1])].limit
               for tag, m in best[2] if tag == 'C04'
               ) and any(tag == 'C04' for tag, _ in best[2]):
            props.add('C06')
        ctx.violate(sorted(props), 'prefix',
                    f'{what}: durable state is not a prefix of registered '
                    f'sessions ({low}..{len(ordered)}); closest prefix '
                    f'{best[1]}: {[m for _, m in best[2]][:3]}')
        return False

    def lost_cleanup(self, chosen):
        chosen = model.merge_order(chosen)
        ids = {e.id for s in chosen for e in s.events}
        lost = {e.id for s in self.sessions for e in s.events} - ids
        self.retention.forget(lost)
        self.sessions = list(chosen)
        self.order = itertools.count(len(chosen))
        self.event_session = {}
        self.last_ts.clear()
        for i, s in enumerate(chosen):
            s.order = i
            if s.announced is None:
                s.announced = next(self.seq)
            if s.returned is None:
                s.returned = next(self.seq)
            s.announced_count = 1
            for e in s.events:
                if e.id not in self.event_session:
                    self.event_session[e.id] = s
                self.retention.persisted_at.setdefault(e.id, s.announced)
        self.mono_id.clear()
        for s in chosen:
            # unstored sessions leave no trace; keep workload ids increasing
            for e in s.events:
                server = e.id.server
                self.mono_id[server] = max(self.mono_id.get(server, 0),
                                           e.id.session)
                us = e.timestamp.s * 1_000_000 + e.timestamp.us
                self.last_ts[server] = max(self.last_ts.get(server, 0), us)

    def check_announced(self, state, announced, what):
        """C01 for explicitly persisted sessions"""
        ctx = self.ctx
        view = model.build_view(self.mconf, announced)
        for i, want in view.last_id.items():
            ctx.check(['C01', 'C08'], 'last-id', state['last'][i] >= want,
                      lambda: f'{what}: last event id {state["last"][i]} '
                              f'lower than persisted {want}')
        latest = {e.type: e for e in state['latest']}
        for t, cands in view.latest.items():
            got = latest.get(t)
            ctx.check(['C01', 'C03'], 'latest-lost',
                      got is not None and not any(
                          model.natural_gt(c, got) for c in cands) and
                      (got in cands or got.id not in view.events or
                       view.events[got.id] == got),
                      lambda: f'{what}: latest {got} older than persisted '
                              f'{cands}')
        for p in self.mconf.partitions:
            if p.limit or p.idx not in state['parts']:
                continue
            got = {e.id: e for e in state['parts'][p.idx]}
            for e in view.parts[p.idx]:
                ctx.check(['C01', 'C04'], 'lost', got.get(e.id) == e,
                          lambda: f'{what}: persisted event {e} lost '
                                  f'(found {got.get(e.id)})')
        for i in self.ids:
            got = {e.id: e for e in state['server'][i]}
            for e in view.events.values():
                if e.id.server != i:
                    continue
                parts = self.mconf.info(e)[2]
                if any(not p.limit for p in parts):
                    ctx.check(['C01', 'C05'], 'lost-ref', got.get(e.id) == e,
                              lambda: f'{what}: persisted event {e} not in '
                                      f'server query')

    # end of run

    async def final(self, backend):
        ctx = self.ctx
        common = self.common
        self.phase = 'final'
        self.w.calm()
        await backend.flush()
        limited = [p for p in self.mconf.partitions if p.limit]
        if limited:
            period = self.conf['cleanup_period']
            await asyncio.sleep(3 * period + 12)
            await self.check_converged(backend, limited, period)
        for server in self.ids:
            await self.op_server(backend, {
                'server': server, 'persisted': False, 'max': 3, 'pages': 300})
            await self.op_server(backend, {
                'server': server, 'persisted': True})
            await self.op_lastid(backend, {'server': server})
        await self.op_latest(backend, {'types': None})
        for p in self.mconf.partitions:
            for order in ('ASCENDING', 'DESCENDING'):
                await self.op_ts(backend, {
                    'types': [list(i) for i in p.subs], 'order': order,
                    'order_by': p.order_by, 'pages': 1000})
        if self.w.stopped:
            return
        await self.close_backend(backend)
        self.proc.kill()
        self.node.disk.crash(False)
        self.proc = None
        self.proc = self.node.spawn('final')
        self.proc.start(self.verify_final)

    async def check_converged(self, backend, limited, period):
        common = self.common
        for p in limited:
            if self.mconf.find_partition(p.order_by, p.subs) is not p:
                continue
            got = await self.pages(backend, common.QueryTimeseriesParams(
                event_types=p.subs, order=common.Order.ASCENDING,
                order_by=common.OrderBy[p.order_by]))
            now = self.w.wall_ns(self.node) / core.NS
            low = p.limit.get('min_entries') or 0
            n = len(got)
            if p.limit.get('max_entries') is not None:
                self.ctx.check(
                    'C06', 'not-converged',
                    n <= max(low, p.limit['max_entries']),
                    lambda: f'{n} entries in partition {p.idx} with limit '
                            f'{p.limit}')
            if p.limit.get('duration') is not None and n > low:
                edge = now - p.limit['duration'] - 2 * period - 11
                old = [e for e in got
                       if p.time(e).s + p.time(e).us * 1e-6 < edge]
                self.ctx.check(
                    'C06', 'not-converged', not old,
                    lambda: f'expired entries {model.fmt(old)} in '
                            f'partition {p.idx} {p.limit} at {now}')

    async def verify_final(self):
        from hat.event.backends import lmdb as lmdb_backend
        ctx = self.ctx
        conf = dict(self.conf, db_path=str(self.node.root / 'event.db'))
        backend = await lmdb_backend.info.create(conf, None, None)
        state = await self.read_state(backend)
        self.reconcile(state, self.registered(),
                       {s.idx for s in self.sessions}, 'final')
        await backend.async_close()
        proc = self.clone_node.spawn('clone')
        self.proc.kill()
        if self.clones and not ctx.violations:
            proc.start(self.verify_clones, lmdb_backend)
        else:
            self.phase = 'finished'

    async def verify_clones(self, lmdb_backend):
        ctx = self.ctx
        for path, sessions, announced, seq in self.clones:
            conf = dict(self.conf, db_path=str(path))
            try:
                backend = await lmdb_backend.info.create(conf, None, None)
            except Exception as e:
                ctx.violate(['C02', 'C01'], 'clone-open',
                            f'database cut at crash instant does not open: '
                            f'{e!r}')
                break
            state = await self.read_state(backend)
            await backend.async_close()
            # clone's own cleanup runs with later time
            self.max_wall = max(self.max_wall,
                                self.w.wall_ns(self.clone_node) / core.NS)
            self.reconcile(state, sessions, announced,
                           f'crash image {path.name}', clone=True)
            if self.w.stopped:
                break
        self.phase = 'finished'
