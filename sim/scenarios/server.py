"""One event server with several eventer clients.

The whole server process (`hat.event.server.main.async_main`: main runner,
engine runner, engine, eventer server, LMDB backend) runs under a supervisor
which restarts it; clients use the real eventer client.  Network, process,
storage, module and client faults are injected.
"""

import asyncio
import collections

from .. import core
from .. import evsys
from ..core import NS, ns
from ..evsys import pick
from . import rogue
from . import chatter_queue, gen_queue, shift_ids


REAL = ['hat.event.server (main, main_runner, engine_runner, engine, '
        'eventer_server)', 'hat.event.eventer (client and server)',
        'hat.event.backends.lmdb', 'hat.event.common', 'hat.aio',
        'hat.drivers (chatter, tcp)', 'hat.sbs', 'py-lmdb']
STUB = ['event loop', 'clock', 'TCP', 'executor thread scheduling',
        'process supervisor', 'engine modules', 'client applications']

TYPES = [['a'], ['a', 'x'], ['a', 'y'], ['b', 'x'], ['b', 'x', '1'],
         ['c', 'q'], ['d']]

SUBS = [[['*']], [['*']], [['a', '*']], [['b', '?']], [['a', '?'], ['c', '*']],
        [['b', '*']], [], [['event', '*']], [['d']], [['?']],
        [['event', '?', 'eventer', '*'], ['a']]]

MOD_SUBS = [[['*']], [['a', '*']], [['b', '?']], [['event', '*'], ['a']],
            [['c', '*'], ['a', '?']], [['d'], ['b', '*']], []]


def gen_events(rng, n=None):
    if n is None:
        n = pick(rng, [1, 1, 1, 2, 3, 5])
    return [[pick(rng, TYPES),
             None if rng.random() < 0.6 else [int(rng.random() * 100), 5],
             None if rng.random() < 0.8 else {'x': [1.5, None, 'ž']}]
            for _ in range(n)]


def gen_module(rng, idx, horizon, faults):
    conf = {'idx': idx, 'subs': pick(rng, MOD_SUBS),
            'mode': pick(rng, ['sync', 'async']),
            'delay': pick(rng, [0, 0, 0.01, 0.1]),
            'ret': pick(rng, ['list', 'gen', 'tuple']),
            'sys': rng.random() < 0.3,
            'empty': rng.random() < 0.5,
            'rule': {'n': pick(rng, [0, 1, 1, 2]),
                     'types': [pick(rng, TYPES) for _ in range(2)]},
            'create_delay': pick(rng, [0, 0, 0.05, 1]),
            'close_delay': pick(rng, [0, 0, 0.05, 1]),
            'bg': []}
    if rng.random() < 0.5:
        for _ in range(pick(rng, [1, 2])):
            conf['bg'].append({
                't': pick(rng, [0, 0, round(rng.random() * horizon, 3)]),
                'k': 'reg', 'events': gen_events(rng),
                'fuel': pick(rng, [0, 1, 2]), 'rep': pick(rng, [1, 1, 3]),
                'gap': pick(rng, [0, 0.01])})
    if rng.random() < 0.2:
        conf['bg'].append({'t': round(rng.random() * horizon, 3),
                           'k': 'query'})
    return conf


def gen_at_create(rng, modules):
    """Disturbance at the time when creation of module finishes"""
    m = pick(rng, modules)
    m['at_create'] = {
        'n': pick(rng, [1, 1, 2]),
        'dt': pick(rng, [0, 0, round((rng.random() - 0.75) * 200)]),
        'k': pick(rng, ['stop', 'stop', 'close', 'restart'])}


def gen_client(rng, i, prop):
    spec = {'name': f'c{i}', 'server': 'srv', 'subs': pick(rng, SUBS),
            'persisted': rng.random() < 0.4,
            'server_id': pick(rng, [None, None, None, 1, 7]),
            'token': pick(rng, [None, 'good']),
            'retry': pick(rng, [0.05, 0.5, 2]),
            'reconnect': rng.random() < 0.9,
            'slow_cb': pick(rng, [0, 0, 0, 0.01, 0.2]),
            'eager': rng.random() < 0.4,
            'start': round(pick(rng, [0, rng.random() * 3]), 3)}
    if rng.random() < (0.4 if prop == 'C15' else 0.08):
        spec['token'] = 'wrong'
        spec['retry'] = pick(rng, [1, 5, 20])
    return spec


def gen_query(rng):
    r = rng.random()
    types = pick(rng, [None, [['a', '*']], [pick(rng, TYPES)],
                       [pick(rng, TYPES), ['event', '*']], [['b', '?']]])
    if r < 0.4:
        return {'k': 'query', 'q': 'latest', 'types': types}
    if r < 0.7:
        return {'k': 'query', 'q': 'ts', 'types': types,
                'order': pick(rng, ['ASCENDING', 'DESCENDING']),
                'max': pick(rng, [None, 1, 3, 10])}
    return {'k': 'query', 'q': 'server', 'server': pick(rng, [1, 1, 1, 5]),
            'persisted': rng.random() < 0.5,
            'max': pick(rng, [None, 1, 3, 10])}


def generate(rng, prop, tier):
    horizon = pick(rng, [2, 5, 10, 10, 30])
    long_faults = prop in ('C12', 'C13', 'C25', 'C22') and rng.random() < 0.3
    if long_faults:
        horizon = 90
    faulty = rng.random() < {'C01': 1, 'C02': 1, 'C24': 0.6, 'C26': 0.7,
                             'C09': 0.3}.get(prop, 0.7)
    n_mod = pick(rng, [0, 1, 2, 3] if prop != 'C09' else [1, 2, 3, 4])
    modules = [gen_module(rng, i, horizon, faulty) for i in range(n_mod)]
    if prop in ('C26', 'C24') and not modules:
        modules = [gen_module(rng, 0, horizon, faulty)]
    clients = [gen_client(rng, i + 1, prop)
               for i in range(pick(rng, [1, 2, 3, 4]))]
    if modules and prop in ('C08', 'C10', 'C11', 'C13', 'C14', 'C26') and (
            rng.random() < 0.5):
        # restarts requested while engine starts or processes session
        m = pick(rng, modules)
        if rng.random() < 0.5:
            m['bg'].append({'t': pick(rng, [0, 0, 0.01, 0.5]),
                            'k': 'restart', 'once': True})
        if rng.random() < 0.7:
            m['restart_at'] = sorted({1 + int(rng.random() ** 2 * 60)
                                      for _ in range(pick(rng, [1, 3, 6]))})
    if faulty and modules and rng.random() < {
            'C24': 0.5, 'C26': 0.5}.get(prop, 0.1):
        gen_at_create(rng, modules)
    reg_delay = None
    if rng.random() < 0.3:
        reg_delay = [pick(rng, [0, 0.02, 0.3]), pick(rng, [0, 0.02, 0.3]),
                     pick(rng, [0.05, 0.5])]
    n_ops = pick(rng, [5, 20, 50] if tier == 'quick' else [5, 30, 80, 150])
    ops = []
    for _ in range(n_ops):
        r = rng.random()
        if r < 0.7:
            op = {'k': 'reg', 'events': gen_events(rng),
                  'fuel': pick(rng, [0, 0, 1, 2, 3]) if n_mod else 0,
                  'resp': rng.random() < 0.7, 'rep': pick(rng, [1, 1, 1, 4])}
        elif r < 0.93:
            op = gen_query(rng)
        elif r < 0.98:
            op = {'k': 'reconnect'}
        else:
            op = {'k': 'aclose'}
        op['c'] = pick(rng, clients)['name']
        op['t'] = round(rng.random() * horizon, 4)
        ops.append(op)
    if rng.random() < 0.5:
        centers = [round(rng.random() * horizon, 4) for _ in range(3)]
        for op in ops:
            if rng.random() < 0.7:
                op['t'] = round(pick(rng, centers) + rng.random() * 0.05, 5)
    ops.sort(key=lambda o: o['t'])
    faults = []

    def when():
        if ops and rng.random() < 0.5:
            # right after some operation
            return round(pick(rng, ops)['t'] + rng.random() ** 2 * 0.05, 5)
        return round(rng.random() * horizon, 4)

    kinds = []
    if faulty:
        kinds = {
            'C01': ['crash', 'armcrash', 'stop', 'armfail', 'stall'],
            'C02': ['crash', 'armcrash', 'stop', 'armfail'],
            'C08': ['crash', 'armcrash', 'restart', 'restart', 'stop',
                    'raise'],
            'C09': ['restart', 'stop', 'reset', 'raise'],
            'C10': ['restart', 'stop', 'reset', 'crash', 'part', 'raise',
                    'ccrash', 'stall'],
            'C11': ['reset', 'part', 'restart', 'cstall', 'ccrash',
                    'slowlink', 'crash', 'rogue'],
            'C12': ['reset', 'part', 'restart', 'crash', 'cstall', 'stall',
                    'stop'],
            'C13': ['restart', 'restart', 'stop', 'crash', 'reset', 'mfail',
                    'part', 'slowlink'],
            'C14': ['reset', 'ccrash', 'part', 'restart', 'rogue'],
            'C15': ['rogue', 'restart', 'reset'],
            'C24': ['stop', 'stop', 'stop', 'cstall', 'slowdisk', 'part',
                    'restart'],
            'C25': ['rogue', 'rogue', 'rogue', 'cstall', 'reset', 'part',
                    'ccrash'],
            'C26': ['restart', 'restart', 'restart', 'raise', 'mclose',
                    'mfail', 'stop', 'crash', 'slowdisk'],
        }.get(prop, ['crash', 'restart', 'stop', 'reset', 'part', 'cstall',
                     'rogue', 'armcrash', 'armfail', 'raise', 'stall'])
        for _ in range(pick(rng, [1, 1, 2, 3, 5])):
            faults.append(gen_fault(rng, pick(rng, kinds), when, clients,
                                    modules, horizon, long_faults))
    if faulty and rng.random() < 0.3:
        # system time set forward or back
        for _ in range(pick(rng, [1, 1, 2, 3])):
            faults.append(gen_fault(rng, 'jump', when, clients, modules,
                                    horizon, long_faults))
    faults = [f for f in faults if f]
    faults.sort(key=lambda f: f['t'])
    flood = False
    if prop == 'C25' and len(clients) > 1 and rng.random() < 0.04:
        # client which stops receiving and busy producers
        flood = True
        horizon = max(horizon, 60)
        victim, prod = clients[:2]
        victim.update(subs=[['*']], token=None, start=0, server_id=None)
        prod.update(token=None, start=0)
        for c in clients:
            c['slow_cb'] = 0
        for m in modules:
            m['delay'] = 0
        # connection which is not read is another stalled client
        faults = [f for f in faults if f['f'] == 'rogue' and
                  f['r'].get('end') != 'hold']
        faults.append({'f': 'flood', 't': 5, 'd': 120, 'n': 1500,
                       'c': victim['name'], 'p': prod['name']})
    queue = None if flood else gen_queue(rng)
    if queue and queue < 10 and len(clients) > 1 and rng.random() < 0.7:
        # back pressure: clients which stop receiving for a while
        flood = True
        horizon = max(horizon, 30)
        for c in clients:
            c['slow_cb'] = 0
        for _ in range(pick(rng, [1, 1, 2])):
            victim, prod = rng.sample(clients, 2)
            if victim['token'] == 'good':
                victim['token'] = None
            victim.update(subs=[['*']], server_id=None,
                          slow_cb=pick(rng, [0, 0, 0.05, 0.2]))
            t = round(1 + rng.random() * (horizon - 10), 3)
            d = pick(rng, [2, 6, 12, 17, 30])
            faults.append({'f': 'clog', 't': t, 'd': d,
                           'n': pick(rng, [100, 30, 1 + int(rng.random() * 20),
                                           1 + int(rng.random() * 20)]),
                           'c': victim['name'], 'p': prod['name']})
            if modules and rng.random() < 0.6:
                faults.append({'f': 'restart', 'm': modules[0]['idx'],
                               't': round(t + rng.random() ** 2 * d, 3)})
        faults.sort(key=lambda f: f['t'])
    world = {'preempt': pick(rng, [0, 0.02, 0.1]),
             'job_delay_max': pick(rng, [0.0005, 0.005, 0.05]),
             'net': {'lat_max': pick(rng, [0.0005, 0.005, 0.1]),
                     'seg_p': pick(rng, [0, 0.1, 0.5]),
                     'spike_p': pick(rng, [0, 0.002, 0.05]),
                     'window': pick(rng, [2000, 65536, 65536]),
                     'high': pick(rng, [1000, 65536])}}
    if flood:
        world['net'].update(window=2000, high=1000)
    if flood and not queue:
        world['net'].update(seg_p=0, lat_max=0.0005, spike_p=0)
    return shift_ids(rng, {
            'scenario': 'server', 'prop': prop, 'horizon': horizon,
            'token': pick(rng, ['good', 'good', None]) if prop != 'C15'
            else pick(rng, ['good', None]),
            'conf': {'flush_period': pick(rng, [0.05, 0.3, 1, 5]),
                     'reg_delay': reg_delay,
                     'modules': modules},
            'clients': clients, 'ops': ops, 'faults': faults, 'world': world,
            'flood': flood, 'busy_stop': rng.random() < 0.5,
            'queue': queue})


def gen_fault(rng, kind, when, clients, modules, horizon, long_faults):
    f = {'f': kind, 't': when()}
    if kind == 'crash':
        f['power'] = rng.random() < 0.4
        f['delay'] = pick(rng, [0.01, 0.5, 3] +
                          ([70] if long_faults and horizon > 60 else []))
    elif kind == 'armcrash':
        f.update(on=pick(rng, ['put', 'commit', 'committed', 'begin_write',
                               'any', 'delete', 'open_db']),
                 skip=int(rng.random() ** 2 * 60),
                 do=pick(rng, ['crash', 'crash', 'power']))
    elif kind == 'armfail':
        f.update(on=pick(rng, ['put', 'commit', 'begin_write']),
                 skip=int(rng.random() ** 2 * 40),
                 err=pick(rng, ['mapfull', 'enospc', 'eio']))
    elif kind == 'slowdisk':
        f.update(on='any', skip=int(rng.random() * 40),
                 dur=pick(rng, [0.05, 0.5, 3]))
    elif kind == 'stall':
        f['d'] = pick(rng, [0.05, 1, 5] + ([60] if long_faults else []))
    elif kind == 'cstall':
        f['c'] = pick(rng, clients)['name']
        f['d'] = pick(rng, [0.5, 3] + ([60] if long_faults else [8]))
    elif kind == 'ccrash':
        f['c'] = pick(rng, clients)['name']
        f['power'] = rng.random() < 0.4
        f['restart'] = pick(rng, [0.05, 1, None])
    elif kind == 'part':
        f['c'] = pick(rng, clients)['name']
        f['d'] = pick(rng, [0.05, 1, 5] + ([75, 75] if long_faults else []))
    elif kind == 'reset':
        f['c'] = pick(rng, clients)['name']
    elif kind == 'slowlink':
        f['c'] = pick(rng, clients)['name']
        f['lat'] = pick(rng, [0.05, 0.5])
        f['d'] = pick(rng, [0.5, 5])
    elif kind in ('restart', 'raise', 'mclose'):
        if not modules:
            f['f'] = 'stop'
            return f
        f['m'] = pick(rng, modules)['idx']
    elif kind == 'mfail':
        if not modules:
            return None
        f['m'] = pick(rng, modules)['idx']
        f['now'] = rng.random() < 0.7
    elif kind == 'rogue':
        f['r'] = rogue.gen(rng)
    elif kind == 'jump':
        f['d'] = pick(rng, [-0.01, -1, -3600, -86400 * 30, 0.5, 3600])
    return f


def run(world, plan, ctx):
    with chatter_queue(plan.get('queue')):
        Driver(world, plan, ctx).run()


class Driver(evsys.System):

    def __init__(self, world, plan, ctx):
        super().__init__(world, plan, ctx)
        sid = 1 + plan.get('id_shift', 0)
        self.server_ids = [sid, sid + 1]
        self.flood = plan['flood']
        self.srv = evsys.Server(self, 'srv', '10.0.0.1', sid,
                                plan['conf'])
        self.servers['srv'] = self.srv
        for i, spec in enumerate(plan['clients']):
            cl = evsys.Cl(self, spec, f'10.0.1.{i + 1}')
            self.clients[spec['name']] = cl
        self.rogue_node = world.add_node('rogue', '10.0.2.1')
        self.rogues = []
        self.rogue_names = {'rogue', 'late'}
        kinds = {f['f'] for f in plan['faults']}
        self.client_faults = bool(kinds & {
            'stall', 'cstall', 'ccrash', 'part', 'slowlink', 'crash',
            'armcrash'}) or plan['flood']
        self.strict_close = not (
            self.client_faults or plan['flood'] or plan.get('queue') or
            'reset' in kinds)
        self.healed = False
        self.t_end = None
        self.max_stall = max([f.get('d', 0) for f in plan['faults']
                              if f['f'] in ('stall', 'cstall', 'flood',
                                            'clog')] or
                             [0])
        self.grace = ns(self.max_stall + 5)
        # outstanding work of modules (delays) extends legitimate times
        self.phase = 'run'

    def port(self, srv):
        return 23012

    def server_token(self, srv):
        return self.plan['token']

    def server_conf(self, srv):
        conf = {'type': 'event', 'name': srv.name, 'server_id': srv.sid,
                'backend': {
                    'module': 'sim.probe', 'srv': srv.name,
                    'reg_delay': srv.conf['reg_delay'],
                    'real': {'module': 'hat.event.backends.lmdb',
                             'db_path': str(srv.node.root / 'event.db'),
                             'identifier': None,
                             'flush_period': srv.conf['flush_period'],
                             'cleanup_period': 60, 'conditions': [],
                             'latest': {'subscriptions': [['*']]},
                             'timeseries': [{'order_by': 'TIMESTAMP',
                                             'subscriptions': [['*']]}]}},
                'modules': [dict(m, module='sim.mods', srv=srv.name)
                            for m in srv.conf['modules']],
                'eventer_server': {'host': srv.node.host,
                                   'port': self.port(srv)}}
        if self.plan['token'] is not None:
            conf['server_token'] = self.plan['token']
        return conf

    def run(self):
        w = self.w
        plan = self.plan
        horizon = ns(plan['horizon'])
        w.at(0, self.srv.start)
        for cl in self.clients.values():
            w.at(ns(cl.spec['start']), cl.start)
        for op in plan['ops']:
            w.at(ns(op['t']), self.clients[op['c']].op, op)
        for f in plan['faults']:
            w.at(ns(f['t']), self.fault, f)
        w.at(horizon, self.heal)
        while not w.stopped and self.phase != 'finished':
            if w.now > horizon + 1200 * NS:
                raise core.HarnessError(f'stuck in phase {self.phase}')
            w.run(w.now + NS)
        self.ctx.samples.append({
            'clients': len(self.clients), 'modules': len(
                self.srv.conf['modules']), 'ops': len(plan['ops']),
            'faults': plan['faults'], 'incarnations': len(self.srv.incs),
            'engine_runs': sum(len(i.runs) for i in self.srv.incs),
            'sessions': len(self.srv.sessions)})

    # faults

    def fault(self, f):
        if self.healed:
            return
        w = self.w
        srv = self.srv
        kind = f['f']
        inc = srv.inc
        if kind == 'crash':
            srv.crash(f['power'], f['delay'])
        elif kind == 'armcrash':
            srv.node.disk.arm({'on': f['on'], 'skip': f['skip'],
                               'do': f['do'], 'cb': srv.crash})
        elif kind == 'armfail':
            srv.node.disk.arm({'on': f['on'], 'skip': f['skip'], 'do': 'fail',
                               'err': f['err'], 'cb': self.on_disk_fail})
        elif kind == 'slowdisk':
            srv.node.disk.arm({'on': 'any', 'skip': f['skip'], 'do': 'slow',
                               'dur': ns(f['dur'])})
        elif kind == 'jump':
            srv.node.jump_clock(ns(f['d']))
        elif kind == 'stop':
            srv.stop()
        elif kind == 'stall':
            if inc.alive:
                inc.stall(ns(f['d']))
        elif kind == 'cstall':
            cl = self.clients[f['c']]
            if cl.proc and cl.proc.alive:
                cl.proc.stall(ns(f['d']))
                cl.stall_end = max(cl.stall_end, w.now) + ns(f['d'])
                if f['d'] >= 60:
                    w.after(58 * NS, self.check_dropped, cl, cl.conn, inc)
        elif kind == 'ccrash':
            self.clients[f['c']].crash(f['power'], f['restart'])
        elif kind == 'part':
            cl = self.clients[f['c']]
            w.net.partition(cl.node, srv.node)
            since = w.net.link(cl.node, srv.node).blocked_since
            if f['d'] >= 75 and since == w.now:
                w.after(70 * NS, self.check_dropped, cl, cl.conn, inc, since)
            w.after(ns(f['d']), w.net.heal, cl.node, srv.node)
        elif kind == 'reset':
            w.net.reset(self.clients[f['c']].node, srv.node)
        elif kind == 'slowlink':
            link = w.net.link(self.clients[f['c']].node, srv.node)
            link.extra_latency = ns(f['lat'])
            w.faults['slow_link'] += 1
            w.after(ns(f['d']), self.fast_link, link)
        elif kind in ('restart', 'raise', 'mclose'):
            run = inc.runs[-1] if inc and inc.runs else None
            if not inc.alive or not run or len(run.modules) <= f['m']:
                return
            m = run.modules[f['m']]
            if not m.is_open:
                return
            if kind == 'restart':
                inc.proc.call(self.do_restart, m)
            elif kind == 'raise':
                srv.raise_next.add(f['m'])
            else:
                inc.proc.call(self.do_mclose, m)
        elif kind == 'mfail':
            srv.create_fail = f['m'] + 1
            run = inc.runs[-1] if inc and inc.runs else None
            if f['now'] and inc.alive and run and run.modules:
                inc.proc.call(self.do_restart, run.modules[0])
        elif kind == 'flood':
            self.start_flood(f)
        elif kind == 'clog':
            self.start_clog(f)
        elif kind == 'rogue':
            r = rogue.Rogue(self, f['r'])
            self.rogues.append(r)
            r.start()
        else:
            raise core.HarnessError(f'fault {f}')

    def fast_link(self, link):
        link.extra_latency = 0

    def do_restart(self, m):
        self.srv.on_restart_request(m)
        m.engine.restart()

    def do_mclose(self, m):
        self.srv.on_module_self_close(m)
        m.close()

    def on_disk_fail(self):
        inc = self.srv.inc
        inc.storage_failed = True
        if inc.exit_ok is None:
            inc.exit_ok = 'storage'
            inc.t_exit_ok = self.w.now

    def check_dropped(self, cl, conn, inc, since=None):
        """Both sides noticed unreachable peer"""
        if conn is None or self.w.stopped or self.flood:
            return
        link = self.w.net.link(cl.node, self.srv.node)
        if since is not None and link.blocked_since != since:
            return
        stalled = cl.proc and cl.proc.loop._free_at > self.w.now
        if since is not None and cl.stall_end > since:
            stalled = True
        if not stalled and cl.proc and cl.proc.alive:
            self.ctx.check('C12', 'client-detects', conn.t_closed is not None,
                           lambda: f'{conn}: client did not notice '
                                   f'unreachable server')
        if inc is self.srv.inc and inc.alive and inc.t_stop is None and (
                inc.runs and inc.runs[-1].engine and
                inc.runs[-1].engine.is_open and
                inc.proc.loop._free_at <= self.w.now and
                inc.stall_end <= self.w.now - 72 * NS):
            self.probe('server_drop_checked')
            names = [name for _, name in
                     inc.runs[-1].engine.get_client_names()]
            self.ctx.check(['C12', 'C25'], 'server-detects',
                           conn.name not in names,
                           lambda: f'{conn}: server did not notice '
                                   f'unreachable client')

    def start_flood(self, f):
        """Client doesn't receive while others register a lot of events"""
        victim = self.clients[f['c']]
        if not victim.proc or not victim.proc.alive or not victim.conn:
            return
        self.probe('flood')
        victim.proc.stall(ns(f['d']))
        events = [[['d'], None, {'x': 'a' * 200}]]
        for i in range(2):
            self.w.after(i * NS, self.clients[f['p']].op,
                         {'k': 'reg', 'events': events, 'rep': f['n'],
                          'resp': False})
        for i in range(1, f['d'] // 5):
            self.w.after(5 * i * NS, self.check_flood, victim)
            self.w.after((5 * i - 1) * NS, self.clients[f['p']].op,
                         {'k': 'reg', 'events': [[['a'], None, None]],
                          'resp': True})

    def start_clog(self, f):
        """Client doesn't receive for a while and server can not send"""
        victim = self.clients[f['c']]
        if not victim.proc or not victim.proc.alive or not victim.conn:
            return
        self.probe('clog')
        victim.proc.stall(ns(f['d']))
        victim.stall_end = max(victim.stall_end, self.w.now + ns(f['d']))
        self.clients[f['p']].op({
            'k': 'reg', 'events': [[['d'], None, {'x': 'a' * 200}]],
            'rep': f['n'], 'resp': False})
        for i in range(1, min(int(f['d'] / 0.3), 20)):
            self.w.after(i * ns(0.3), self.clients[f['p']].op, {
                'k': 'reg', 'events': [[['b', 'x'], None, None]],
                'resp': True})

    def check_flood(self, victim):
        """Others are served while one client is stalled"""
        if self.w.stopped or self.phase != 'run':
            return
        last = max((s.t for srv in self.servers.values()
                    for s in srv.sessions[-1:]), default=0)
        for op in self.open_ops:
            conn = op['conn']
            if conn.cl is victim:
                continue
            age = (self.w.now - max(op['t'], conn.t_progress or 0,
                                    last)) / NS
            self.ctx.check('C25', 'stalled-client', age < 45,
                           lambda: f'{conn}: {op["kind"]} pending for '
                                   f'{age:.0f} s while {victim.name} is '
                                   f'stalled')

    # final phase

    def heal(self):
        self.healed = True
        w = self.w
        self.t_heal = w.now
        w.net.heal_all()
        for link in w.net.links.values():
            link.extra_latency = 0
        self.srv.node.disk.triggers.clear()
        self.srv.raise_next.clear()
        self.srv.create_fail = 0
        w.trace('heal')
        settle = 90 if self.client_faults else 30
        settle += self.max_stall
        w.after(5 * NS, w.calm)
        w.after(ns(settle), self.check_stable)

    def check_stable(self):
        """Faults ended some time ago"""
        ctx = self.ctx
        srv = self.srv
        inc = srv.inc
        if not ctx.check(['C24', 'C25', 'C26'], 'not-up', inc and inc.alive and
                         inc.opened is not None,
                         lambda: f'server is not running: {inc}'):
            return
        if inc.t_stop is not None:
            # stop requested just before faults ended
            self.w.after(30 * NS, self.check_stable)
            return
        if inc.exit_ok:
            self.w.after(30 * NS, self.check_stable)
            inc.t_wait = getattr(inc, 't_wait', 0) + 1
            ctx.check('C26', 'no-exit', inc.t_wait < 5,
                      lambda: f'{inc} keeps running after {inc.exit_ok}')
            return
        run = inc.runs[-1] if inc.runs else None
        if not ctx.check(['C13', 'C26'], 'not-operational',
                         run and run.started and run.stopped is None,
                         lambda: f'{inc}: engine is not running'):
            return
        for cl in self.clients.values():
            conn = cl.conn
            if conn is None:
                if (cl.spec.get('reconnect', True) and
                        cl.spec.get('token') in (None, self.plan['token']) and
                        cl.proc and cl.proc.alive and
                        cl.conns[-1].t_call > max(self.t_heal,
                                                   inc.t_opened) and
                        not cl.conns[-1].refused
                        and cl.conns[-1].t_closed is None):
                    ctx.violate(['C12', 'C25'], 'not-connected',
                                f'{cl.name} can not connect')
                continue
            ctx.check('C13', 'converged', conn.status == 'OPERATIONAL' and
                      conn.client.status.name == 'OPERATIONAL',
                      lambda: f'{conn}: status {conn.status}')
            names = ([name for _, name in run.engine.get_client_names()]
                     if run.engine else None)
            if names is not None:
                ctx.check('C12', 'server-side', conn.name in names,
                          lambda: f'{conn} is not open on the server')
        for op in self.open_ops:
            conn = op['conn']
            if op['kind'] == 'connect' or self.flood:
                continue
            age = (self.w.now - op['t']) / NS
            if age < 20:
                continue
            ctx.violate('C12' if conn.t_closed is not None
                        else ['C12', 'C25'], 'pending',
                        f'{conn}: {op["kind"]} pending for {age:.0f} s, '
                        f'closed {conn.t_closed}')
        for cl in self.clients.values():
            for conn in cl.conns:
                self.check_notifs(conn, True)
                bound = (60 if self.client_faults else 8) * NS
                self.check_conn_events(conn, bound)
                self.check_disconnected(conn, bound)
        for req in self.reqs:
            if req.result == 'failure':
                ctx.check('C10', 'failure-registered', req.sess is None,
                          lambda: f'{req} registered as {req.sess}')
        self.final_reqs = []
        for cl in self.clients.values():
            if cl.conn and cl.conn.t_closed is None:
                cl.proc.start(self.final_register, cl, cl.conn)
        self.w.after(20 * NS, self.check_final_reqs)

    async def final_register(self, cl, conn):
        req = self.make_req(conn, [[['a', 'x'], None, None]], 0)
        self.final_reqs.append(req)
        await cl.register(conn, req, True)

    def check_final_reqs(self):
        if self.w.stopped:
            return
        for req in self.final_reqs:
            self.ctx.check(['C12', 'C25', 'C13'], 'final-register',
                           req.result == 'ok',
                           lambda: f'{req} is not served by operational '
                                   f'server')
        self.phase = 'stop'
        if self.plan['busy_stop']:
            # stop while requests are coming
            for cl in self.clients.values():
                for i in range(5):
                    self.w.after(int(i * 0.003 * NS), cl.op,
                                 {'k': 'reg', 'events': [[['b', 'x'], None,
                                                          None]],
                                  'resp': True, 'rep': 2})
            self.w.after(int(0.007 * NS), self.final_stop)
        else:
            self.final_stop()

    def final_stop(self):
        self.stop_inc = self.srv.inc
        for cl in self.clients.values():
            cl.stop = True
        self.srv.stop(restart=False)
        self.w.after(ns(self.stop_bound + 1), self.after_stop)

    def after_stop(self):
        inc = self.stop_inc
        if self.w.stopped:
            return
        if inc.alive:       # excused by check_stopped
            self.phase = 'finished'
            return
        for cl in self.clients.values():
            for conn in cl.conns:
                self.ctx.check(
                    'C12', 'open-after-stop', conn.client is None or
                    conn.t_closed is not None,
                    lambda: f'{conn} open although server has stopped')
                self.check_notifs(conn)
        for op in self.open_ops:
            if op['kind'] == 'connect':
                continue
            self.ctx.violate(['C12', 'C24'], 'pending',
                             f'{op["conn"]}: {op["kind"]} pending after '
                             f'server has stopped')
        self.srv.restart_allowed = True
        self.srv.start()
        self.w.after(30 * NS, self.after_restart)

    def after_restart(self):
        inc = self.srv.inc
        self.ctx.check('C24', 'start-again', inc.alive and inc.runs and
                       inc.runs[-1].started and
                       inc.runs[-1].stopped is None,
                       lambda: f'{inc}: not operational after restart')
        self.phase = 'finished'
