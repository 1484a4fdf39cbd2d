"""Redundant event servers, monitor servers, clients and eventer components.

Every event server is whole real `hat.event.server.main.async_main` process,
connected to real monitor server; components use real
`hat.event.component`.
"""

import asyncio
import collections
import inspect
import itertools

from .. import core
from .. import evsys
from ..core import NS, ns
from ..evsys import pick
from . import server as srvmod, chatter_queue, gen_queue, shift_ids


REAL = ['hat.event.server (main, main_runner, engine_runner, engine, '
        'eventer_server, eventer_client, eventer_client_runner)',
        'hat.event.eventer (client and server)', 'hat.event.component',
        'hat.event.backends.lmdb', 'hat.event.common', 'hat.monitor '
        '(server, component)', 'hat.aio', 'hat.drivers (chatter, tcp)',
        'hat.sbs', 'py-lmdb']
STUB = ['event loop', 'clock', 'TCP', 'executor thread scheduling',
        'process supervisor', 'engine modules', 'client applications']

MON_PORT = 23010
MASTER_PORT = 23011
PORT = 23012

SETTLE = 150


def gen_modules(rng, horizon, prop, split):
    out = []
    for i in range(pick(rng, [1, 1, 2])):
        conf = srvmod.gen_module(rng, i, horizon, False)
        conf['create_delay'] = pick(rng, [0, 0, 0.05, 1, 3])
        conf['close_delay'] = pick(rng, [0, 0, 0.05, 1, 5])
        if prop == 'C26' and rng.random() < 0.7 or rng.random() < 0.15:
            conf['bg'].append({'t': pick(rng, [0, 0.5, round(
                rng.random() * horizon, 3)]), 'k': 'reset_ready',
                'once': rng.random() < 0.8})
        if rng.random() < (0.7 if split else 0.2 if prop in (
                'C17', 'C18', 'C21') else 0.1):
            # slow processing of synchronization state
            conf.update(mode='async', subs=[['*']],
                        sync_delay=pick(rng, [0.2, 1, 3]))
        out.append(conf)
    if rng.random() < (0.5 if prop in ('C26', 'C24') else 0.1):
        srvmod.gen_at_create(rng, out)
    return out


def generate(rng, prop, tier):
    horizon = pick(rng, [5, 15, 30, 60] + ([120] if tier != 'quick' else []))
    n = pick(rng, [2, 2, 2, 3])
    clean = rng.random() < {'C19': 0.8, 'C20': 0.4}.get(prop, 0.15)
    n_mon = 1 if rng.random() < 0.75 else n
    # monitors do not see each other: several active servers
    split = not clean and rng.random() < {'C17': 0.2, 'C18': 0.2,
                                          'C21': 0.1}.get(prop, 0.04)
    if split:
        n_mon = n
    base = pick(rng, [None, None, 'good'])
    servers = []
    for i in range(n):
        servers.append({
            'name': f's{i + 1}', 'sid': i + 1,
            'mon': i if n_mon > 1 else 0,
            'token': 'other' if rng.random() < (
                0.4 if prop == 'C15' else 0.05) else base,
            'start': pick(rng, [0.1, 0.1, round(rng.random() * 5, 3)]),
            'restart_delay': pick(rng, [0.1, 1, 8]),
            'flush_period': pick(rng, [0.2, 0.4, 1, 1, 5]),
            'page': pick(rng, [None, 1, 2, 3, 5, 7]),
            'reg_delay': None if rng.random() < 0.8 else [
                pick(rng, [0, 0.02, 0.3]), pick(rng, [0, 0.02, 0.3]), 0.1],
            'qdelay': pick(rng, [0, 0, 0.02, 0.3]),
            'clock': pick(rng, [0, 0, 3.5, -2]),
            'modules': gen_modules(rng, horizon, prop, split)})
    clients = []
    for i in range(pick(rng, [n, n, n + 1])):
        s = servers[i % n]
        spec = srvmod.gen_client(rng, i + 1, prop)
        spec.update(server=s['name'], server_id=pick(
            rng, [None, None, 1, 2]), token=pick(rng, [None, s['token']]),
            start=round(pick(rng, [0.2, rng.random() * 3]), 3), retry=0.5,
            slow_cb=0, reconnect=True)
        clients.append(spec)
    comps = []
    n_comp = pick(rng, [1, 2]) if prop == 'C23' else (
        1 if rng.random() < 0.15 else 0)
    for i in range(n_comp):
        comps.append({
            'name': f'k{i + 1}', 'mon': int(rng.random() * n_mon),
            'group': pick(rng, ['comp', f'g{i}']),
            'token': pick(rng, [None, None, base]),
            'delay': pick(rng, [0, 0, 0.02, 0.5, 3]),
            'close_delay': pick(rng, [0, 0, 0.1, 2]),
            'slow_cb': pick(rng, [0, 0, 0.05]),
            'bind': rng.random() < 0.4,
            'reconnect_delay': pick(rng, [0.5, 0.5, 0.05]),
            'self_close': sorted(round(rng.random() * horizon, 3) for _ in
                                 range(pick(rng, [0, 0, 1]))),
            'start': pick(rng, [0.1, 3])})
    ops = []
    for _ in range(pick(rng, [8, 25, 60] if tier == 'quick' else
                        [10, 40, 120])):
        r = rng.random()
        if r < 0.9:
            op = {'k': 'reg', 'events': srvmod.gen_events(rng),
                  'fuel': pick(rng, [0, 0, 1, 2]),
                  'resp': rng.random() < 0.7, 'rep': pick(rng, [1, 1, 3])}
        elif r < 0.97:
            op = srvmod.gen_query(rng)
        else:
            op = {'k': 'reconnect'}
        op['c'] = pick(rng, clients)['name']
        op['t'] = round(rng.random() * horizon, 4)
        ops.append(op)
    # all clients register (only operational server accepts)
    for _ in range(pick(rng, [3, 8, 15])):
        t = round(rng.random() * horizon, 4)
        op = {'k': 'reg', 'events': srvmod.gen_events(rng),
              'fuel': pick(rng, [0, 1]), 'resp': True,
              'rep': pick(rng, [1, 5])}
        ops += [dict(op, c=c['name'], t=t) for c in clients]
    ops.sort(key=lambda o: o['t'])

    kinds = {
        'C15': ['rank', 'crash', 'reset', 'stop'],
        'C17': ['part', 'reset', 'crash', 'armcrash', 'stop', 'slow',
                'stall', 'rank', 'moncrash'],
        'C18': ['part', 'reset', 'crash', 'armcrash', 'stop', 'slow',
                'stall', 'rank', 'crash'],
        'C19': ['stop', 'stop', 'crash', 'rank', 'rank', 'restart',
                'sreset', 'slowdisk'],
        'C20': ['rank', 'stop', 'sreset', 'part', 'crash', 'restart',
                'moncrash', 'slow'],
        'C21': ['reset', 'part', 'crash', 'rank', 'stop', 'restart'],
        'C22': ['part', 'part', 'reset', 'crash', 'moncrash', 'stall',
                'stop', 'slow'],
        'C23': ['creset', 'creset', 'stop', 'rank', 'crash', 'cpart',
                'ccrash', 'moncrash', 'restart'],
        'C26': ['restart', 'rank', 'crash', 'stop'],
    }.get(prop, ['part', 'reset', 'crash', 'rank', 'stop', 'stall'])
    if clean:
        kinds = [k for k in kinds if k not in (
            'part', 'moncrash', 'stall', 'cpart', 'reset', 'slow')] + [
                'rank', 'stop', 'crash']
    faults = []
    for _ in range(pick(rng, [1, 2, 4, 8])):
        faults.append(gen_fault(rng, pick(rng, kinds), horizon, servers,
                                n_mon, comps))
    if prop in ('C19', 'C20') or rng.random() < 0.1:
        # while one server is stopping, other one is started or stopped
        for _ in range(pick(rng, [0, 1, 2])):
            a, b = rng.sample([s['name'] for s in servers], 2)
            t = round(rng.random() * horizon, 3)
            d = pick(rng, [0.02, 0.3, 1, 5])
            faults.append({'f': pick(rng, ['stop', 'rank']), 'rank': 3,
                           't': t, 's': a})
            if rng.random() < 0.5:
                faults.append({'f': 'stop', 's': b,
                               't': round(t + rng.random() * d, 4)})
            else:
                faults.append({'f': 'crash', 's': b, 'power': False,
                               't': t, 'delay': round(rng.random() * d, 4)})
            for m in servers[[s['name'] for s in servers].index(
                    a)]['modules']:
                m['close_delay'] = d
    if split:
        for i in range(n_mon):
            faults += [{'f': 'part', 't': 0.05, 's': 's1', 'a': f'm{i}',
                        'b': f'm{j}', 'd': horizon} for j in range(i)]
        for _ in range(pick(rng, [2, 5, 10])):
            a, b = rng.sample([s['name'] for s in servers], 2)
            faults.append({'f': 'sreset', 't': round(rng.random() * horizon,
                                                     4),
                           's': 's1', 'a': a, 'b': b, 'd': 1})
    if rng.random() < 0.3:
        # system time set forward or back
        for _ in range(pick(rng, [1, 1, 2, 3])):
            faults.append(gen_fault(rng, 'jump', horizon, servers, n_mon,
                                    comps))
    faults = [f for f in faults if f]
    if rng.random() < 0.5 and faults:
        c = round(rng.random() * horizon, 3)
        for f in faults:
            if rng.random() < 0.6:
                f['t'] = round(c + rng.random() * 3, 4)
    faults.sort(key=lambda f: f['t'])
    return shift_ids(rng, {
            'scenario': 'cluster', 'prop': prop, 'horizon': horizon,
            'clean': clean, 'n_mon': n_mon, 'servers': servers,
            'clients': clients, 'comps': comps, 'ops': ops, 'faults': faults,
            'world': {'preempt': pick(rng, [0, 0.02]),
                      'job_delay_max': pick(rng, [0.0005, 0.005, 0.05]),
                      'net': {'lat_max': pick(rng, [0.0005, 0.005, 0.05]),
                              'seg_p': pick(rng, [0, 0.1, 0.5]),
                              'spike_p': pick(rng, [0, 0.002, 0.05]),
                              'window': pick(rng, [2000, 65536, 65536])}},
            'queue': gen_queue(rng)})


def gen_fault(rng, kind, horizon, servers, n_mon, comps):
    f = {'f': kind, 't': round(rng.random() * horizon, 4),
         's': pick(rng, servers)['name']}
    names = [s['name'] for s in servers]
    if kind == 'crash':
        f['power'] = rng.random() < 0.4
        f['delay'] = pick(rng, [0.01, 0.5, 3, 20])
    elif kind == 'armcrash':
        f.update(on=pick(rng, ['put', 'commit', 'committed', 'begin_write',
                               'any']),
                 skip=int(rng.random() ** 2 * 60),
                 do=pick(rng, ['crash', 'crash', 'power']))
    elif kind == 'slowdisk':
        f.update(skip=int(rng.random() * 40), dur=pick(rng, [0.05, 0.5, 3]))
    elif kind in ('part', 'reset', 'slow', 'sreset'):
        a = pick(rng, names)
        others = [i for i in names if i != a]
        mons = [f'm{i}' for i in range(n_mon)]
        b = pick(rng, others * 3 + (mons if kind != 'sreset' else []))
        f.update(a=a, b=b, d=pick(rng, [0.05, 1, 5, 25, 60]))
    elif kind == 'stall':
        f.update(x=pick(rng, names + names + ['m0']),
                 d=pick(rng, [0.05, 1, 5, 15]))
    elif kind == 'moncrash':
        f.update(m=int(rng.random() * n_mon), delay=pick(rng, [0.1, 2, 20]),
                 power=rng.random() < 0.3)
    elif kind == 'rank':
        f['rank'] = pick(rng, [0, 1, 2, 3])
    elif kind == 'jump':
        f['d'] = pick(rng, [-0.01, -1, -3600, -86400 * 30, 0.5, 3600])
    elif kind in ('creset', 'cpart', 'ccrash'):
        if not comps:
            return None
        f['k'] = pick(rng, comps)['name']
        f['d'] = pick(rng, [0.05, 1, 5, 60])
        f['mon'] = rng.random() < 0.2
        f['after'] = rng.random() < 0.5
    return f


def run(world, plan, ctx):
    with chatter_queue(plan.get('queue')):
        Driver(world, plan, ctx).run()


class Mon:

    def __init__(self, drv, idx, host, conf):
        self.drv = drv
        self.w = drv.w
        self.idx = idx
        self.node = self.w.add_node(f'm{idx}', host)
        self.conf = conf
        self.proc = None
        self.runner = None
        self.n = 0
        self.stall_end = 0

    def start(self):
        if self.up:
            return
        self.n += 1
        self.runner = None
        self.proc = self.node.spawn(f'p{self.n}')
        self.proc.start(self.main)

    async def main(self):
        from hat.monitor.server import runner
        self.runner = await runner.create(self.conf)
        await self.runner.wait_closing()
        if not self.w.stopped:
            raise core.HarnessError('monitor server closed')

    @property
    def up(self):
        return bool(self.proc and self.proc.alive)

    def crash(self, power, delay):
        if not self.up:
            return
        self.w.faults['monitor_crash'] += 1
        self.node.crash(power)
        self.runner = None
        self.w.after(ns(delay), self.start)

    def set_rank(self, name, rank):
        if not self.up or not self.runner or not self.runner._server:
            return
        for info in self.runner._server.state.local_components:
            if info.name == name:
                self.w.faults['rank_change'] += 1
                self.proc.start(self._set_rank, info.cid, rank)

    async def _set_rank(self, cid, rank):
        await self.runner._server.set_rank(cid, rank)

    def info(self, name):
        if not self.up or not self.runner or not self.runner._server:
            return
        # previous connection can still be present
        state = self.runner._server.state
        cid = max((info.cid for info in state.local_components
                   if info.name == name), default=None)
        # state from (former) master doesn't have to contain it
        return next((info for info in state.global_components
                     if info.cid == cid and info.mid == state.mid), None)


class Link:
    """Connection from one event server to another"""

    def __init__(self, drv, inc, peer, args):
        self.drv = drv
        self.inc = inc
        self.peer = peer            # Server
        self.args = args
        self.t_call = drv.w.now
        self.t = None
        self.client = None
        self.status = None
        self.status_t = None
        self.standby = None         # last session before STANDBY
        # oldest STANDBY which can be received next
        self.n_standby = {i: len(v) for i, v in drv.standbys.items()}
        self.reports = []           # (seq, t, state, count, has_count)
        self.state_seq = None
        self.opers = []             # seq of OPERATIONAL notifications
        self.query_count = 0
        self.synced_seq = None
        self.peer_inc = None
        self.pending_reports = 0

    def __repr__(self):
        return f'<link {self.inc}->{self.peer.name} {self.status}>'

    @property
    def is_open(self):
        return (self.client is not None and self.client.is_open and
                self.inc.alive)

    def on_status(self, status):
        drv = self.drv
        self.status = status.name
        self.status_t = drv.w.now
        drv.w.trace('peer_status', repr(self.inc), self.peer.name,
                    status.name)
        if status.name == 'OPERATIONAL':
            self.opers.append(drv.seq())
        if status.name == 'STANDBY':
            inc = self.peer_inc
            if inc is not None and self.synced_seq is not None:
                # every session persisted before is already received
                sent = drv.standbys[inc]
                n = self.n_standby.get(inc, 0)
                self.standby = sent[n] if n < len(sent) else None
            if inc is not None:
                self.n_standby[inc] = self.n_standby.get(inc, 0) + 1
        else:
            self.standby = None

    def on_report(self, events):
        drv = self.drv
        ctx = drv.ctx
        srv = self.inc.srv
        for e in events:
            data = getattr(e.payload, 'data', None)
            ok = (e.type == ('event', str(srv.sid), 'synced',
                             str(self.peer.sid)) and
                  isinstance(data, dict) and e.source_timestamp is None and
                  data.get('state') in STATES and
                  set(data) == ({'state', 'count'}
                                if data['state'] == 'SYNCED' else {'state'}))
            if not ctx.check('C21', 'report', ok,
                             lambda: f'{self}: reported {e}'):
                return
            self.reports.append((drv.seq(), drv.w.now, data['state'],
                                 data.get('count')))
            drv.w.trace('report', repr(self.inc), self.peer.name,
                        data['state'], data.get('count'))
            if data['state'] == 'SYNCED' and data.get('count') is not None:
                self.synced_seq = drv.seq()
                ctx.check('C21', 'count', data['count'] == self.query_count,
                          lambda: f'{self}: SYNCED count {data["count"]}, '
                                  f'{self.query_count} events were obtained')
            self.check_reports()

    def states(self):
        """Reported states without repeated reports"""
        out = {}
        for _, __, state, count in self.reports:
            if state not in out or out[state] is None:
                out[state] = count
        return list(out.items())

    def check_reports(self):
        """Order of reported states"""
        order = [STATES.index(r[2]) for r in self.reports]
        states = sorted(set(order))
        want = [[0], [0, 1], [0, 1, 2]] if self.query_count else [
            [0], [0, 2]]
        self.drv.ctx.check(
            'C21', 'order', order == sorted(order) and states in want,
            lambda: f'{self}: reported {[r[2:] for r in self.reports]}, '
                    f'{self.query_count} events obtained')
        n = sum(1 for r in self.reports
                if r[2] == 'SYNCED' and r[3] is not None)
        self.drv.ctx.check('C21', 'synced-twice', n <= 1,
                           lambda: f'{self}: {self.reports}')

    def check_count(self):
        """Number of repeated reports"""
        if not self.reports:
            return
        first = self.reports[0][0]
        opers = sum(1 for i in self.opers if i > first)
        distinct = len({r[2] for r in self.reports})
        rep = len(self.reports) - distinct
        before = len(self.opers) - opers
        self.drv.ctx.check(
            'C21', 'repeated', opers <= rep <= opers + before,
            lambda: f'{self}: {rep} repeated reports, remote became '
                    f'operational {opers} times: '
                    f'{[r[2:] for r in self.reports]}')
        # last state is the one which is repeated
        last_full = max((i for i, r in enumerate(self.reports)
                         if r[3] is not None), default=None)
        if last_full is not None:
            self.drv.ctx.check(
                'C21', 'repeated-count', all(
                    r[3] is None for r in self.reports[last_full + 1:]),
                lambda: f'{self}: {self.reports}')


STATES = ['CONNECTED', 'SYNCING', 'SYNCED']


class Comp:
    """Host with eventer component"""

    def __init__(self, drv, spec, host):
        self.drv = drv
        self.w = drv.w
        self.ctx = drv.ctx
        self.spec = spec
        self.name = spec['name']
        self.mon = drv.mons[spec['mon']]
        self.node = self.w.add_node(self.name, host)
        self.n = 0
        self.proc = None
        self.component = None
        self.runners = []
        self.active = []            # (t, server data) history
        self.stop = False
        self.stall_end = 0
        self.self_closed = None
        self.on_created = None
        self.t_mon = -1000 * NS     # connection to monitor was disturbed

    def start(self):
        if self.stop or self.proc and self.proc.alive:
            return
        self.n += 1
        self.component = None
        self.runners = []
        self.active = []
        self.self_closed = None
        self.proc = self.node.spawn(f'p{self.n}')
        self.proc.start(self.main, self.proc)

    def crash(self, power, delay=1):
        if not self.proc or not self.proc.alive:
            return
        self.w.faults['component_crash'] += 1
        self.node.crash(power)
        self.component = None
        self.w.after(ns(delay), self.start)

    async def main(self, proc):
        from hat.drivers import tcp
        import hat.event.component
        spec = self.spec
        kwargs = {}
        if spec['token'] is not None:
            kwargs['client_token'] = spec['token']
        kwargs['subscriptions'] = [('*', )]
        try:
            component = await hat.event.component.connect(
                tcp.Address(self.mon.node.host, MON_PORT), spec['name'],
                spec['group'], 'event', f'comp/{spec["name"]}',
                self.runner_cb, state_cb=self.state_cb,
                events_cb=self.events_cb if spec['slow_cb'] else None,
                reconnect_delay=spec['reconnect_delay'],
                eventer_kwargs=kwargs)
        except Exception:
            self.w.after(1 * NS, self.exit, proc)
            return
        self.component = component
        self.state_cb(component, component.state)
        await component.set_ready(True)
        await component.wait_closing()
        t = self.w.now
        # component closes because of its monitor or runner, loss of
        # connection to event server is not a reason
        self.ctx.check('C23', 'component-closing',
                       t - self.t_mon < 120 * NS or
                       any(r.self_closed is not None for r in self.runners),
                       lambda: f'{self.name}: component closed without a '
                               f'reason')
        await component.async_close()
        for r in self.runners:
            self.ctx.check('C23', 'runner-left', not r.is_open,
                           lambda: f'{self.name}: runner open after component '
                                   f'closed')
        self.w.trace('comp_closed', self.name, t)
        self.w.after(1 * NS, self.exit, proc)

    def exit(self, proc):
        if proc.alive:
            proc.kill()
            self.component = None
            self.w.after(int(0.5 * NS), self.start)

    def events_cb(self, component, client, events):
        return asyncio.sleep(self.spec['slow_cb'])

    def state_cb(self, component, state):
        active = []
        for info in state.components:
            if (info.group == 'event' and
                    info.blessing_req.token is not None and
                    info.blessing_req.token == info.blessing_res.token):
                active.append(info.data.get('server_id'))
        sid = active[0] if active else None
        self.active.append((self.w.now, sid))
        for r in self.runners:
            if r.is_open and r.server_data.server_id != sid:
                self.w.after(15 * NS, self.check_replaced, r, component,
                             len(self.active), self.w.now)

    def check_replaced(self, r, component, n, since):
        """Runner is closed when its server is not active any more"""
        sid = r.server_data.server_id
        if (not r.is_open or self.component is not component or
                not component.is_open or not self.proc.alive or
                any(i == sid for _, i in self.active[n:])):
            return
        end = max(since, self.stall_end) + 15 * NS
        if self.w.now < end:
            self.w.after(end - self.w.now, self.check_replaced, r, component,
                         n, since)
            return
        self.ctx.violate('C23', 'runner-replaced',
                         f'{self.name}: runner for {r.server_data} open 15 s '
                         f'after other server became active: '
                         f'{self.active[n - 1:]}')

    def recent_active(self, margin):
        """Servers which were active (as told by monitor) recently"""
        out = set()
        for i, (t, sid) in enumerate(self.active):
            end = (self.active[i + 1][0] if i + 1 < len(self.active)
                   else self.w.now)
            if end >= self.w.now - margin:
                out.add(sid)
        return out

    def runner_cb(self, component, server_data, client):
        ctx = self.ctx
        ctx.check('C23', 'two-runners', not any(r.is_open
                                                for r in self.runners),
                  lambda: f'{self.name}: runner created while another one is '
                          f'open')
        srv = self.drv.by_sid.get(server_data.server_id)
        if not ctx.check('C23', 'server-data', srv is not None and
                         server_data.addr.host == srv.node.host and
                         server_data.addr.port == PORT and
                         server_data.server_token == srv.conf['token'],
                         lambda: f'{self.name}: {server_data}'):
            return
        ctx.check('C15', 'component-token', self.spec['token'] in (
            None, srv.conf['token']), lambda: f'{self.name}: {server_data}')
        margin = 5 * NS + max(0, self.stall_end - self.w.now + 5 * NS)
        ctx.check('C23', 'not-active', server_data.server_id in
                  self.recent_active(margin),
                  lambda: f'{self.name}: runner for {server_data}, active '
                          f'{self.active[-3:]}')
        self.w.trace('runner', self.name, server_data.server_id)
        if self.on_created:
            fn, self.on_created = self.on_created, None
            self.w.after(ns(self.w.rng('oncreated').random() *
                            max(0.02, self.spec['delay'])), fn)
        if self.spec['delay']:
            return self._runner_cb(server_data, client)
        return self.create_runner(server_data, client)

    async def _runner_cb(self, server_data, client):
        await asyncio.sleep(self.spec['delay'])
        return self.create_runner(server_data, client)

    def create_runner(self, server_data, client):
        runner = CompRunner(self, server_data, client)
        self.runners.append(runner)
        if self.active and self.active[-1][1] != server_data.server_id:
            self.w.after(15 * NS, self.check_replaced, runner,
                         self.component, len(self.active), self.w.now)
        return runner

    def self_close(self):
        """Runner closes by itself"""
        for r in self.runners:
            if r.is_open and r.client.is_open and self.proc.alive:
                self.w.faults['runner_close'] += 1
                comp = self.component
                r.self_closed = self.w.now
                self.proc.call(r.close)
                self.w.after(10 * NS, self.check_self_closed, r, comp)

    def check_self_closed(self, r, comp):
        self.ctx.check(
            'C23', 'runner-closed', comp is not self.component or
            comp is None or not comp.is_open or not self.proc.alive or
            self.stall_end > r.self_closed,
            lambda: f'{self.name}: component is open after its runner closed')


def _resource():
    from hat import aio

    class CompRunner(aio.Resource):

        def __init__(self, comp, server_data, client):
            self.comp = comp
            self.server_data = server_data
            self.client = client
            self.self_closed = None
            self._async_group = aio.Group(log_exceptions=False)
            if comp.spec['close_delay']:
                self._async_group.spawn(aio.call_on_cancel, asyncio.sleep,
                                        comp.spec['close_delay'])
            if comp.spec['bind']:
                # runner closes as soon as connection closes
                self._async_group.spawn(aio.call_on_done,
                                        client.wait_closing(), self.close)
            comp.ctx.evals['C23'] += 1

        @property
        def async_group(self):
            return self._async_group

    return CompRunner


CompRunner = None


class Driver(evsys.System):

    def __init__(self, world, plan, ctx):
        global CompRunner
        super().__init__(world, plan, ctx)
        CompRunner = _resource()
        self.exit_props = ['C22', 'C25']
        world.on_log = self.on_log
        self.grace = 60 * NS
        self.clean = plan['clean']
        self.links = []
        self.standbys = collections.defaultdict(list)
        self.last_status = {}
        self.by_sid = {}
        self.proc_inc = {}
        self.mons = []
        for i in range(plan['n_mon']):
            host = f'10.0.3.{i + 1}'
            self.mons.append(Mon(self, i, host, {
                'type': 'monitor',
                'server': {'host': host, 'port': MON_PORT,
                           'default_rank': 1},
                'master': {'host': host, 'port': MASTER_PORT},
                'slave': {'parents': [{'host': f'10.0.3.{j + 1}',
                                       'port': MASTER_PORT}
                                      for j in range(i)],
                          'connect_timeout': 2, 'connect_retry_count': 3,
                          'connect_retry_delay': 1},
                'default_algorithm': 'BLESS_ONE', 'group_algorithms': {}}))
        for i, conf in enumerate(plan['servers']):
            srv = evsys.Server(self, conf['name'], f'10.0.0.{i + 1}',
                               conf['sid'], conf,
                               restart_delay=conf['restart_delay'],
                               clock_offset=ns(conf['clock']))
            srv.mon = self.mons[conf['mon']]
            self.servers[conf['name']] = srv
            self.by_sid[conf['sid']] = srv
            self.server_ids.append(conf['sid'])
        for i, spec in enumerate(plan['clients']):
            self.clients[spec['name']] = evsys.Cl(self, spec,
                                                  f'10.0.1.{i + 1}')
        self.comps = {spec['name']: Comp(self, spec, f'10.0.4.{i + 1}')
                      for i, spec in enumerate(plan['comps'])}
        self.nodes = {**{n: s.node for n, s in self.servers.items()},
                      **{f'm{i}': m.node for i, m in enumerate(self.mons)}}
        self.healed = False
        self.phase = 'run'
        self.t_heal = None
        self.install()

    # seams

    def install(self):
        """Observe public eventer API used by servers"""
        import hat.event.eventer
        import hat.event.eventer.client
        import hat.event.eventer.server
        orig = hat.event.eventer.client.connect
        sig = inspect.signature(orig)
        drv = self

        async def connect(*args, **kwargs):
            inc = drv.current_inc()
            if inc is None:
                return await orig(*args, **kwargs)
            return await drv.link_connect(inc, orig, sig.bind(*args,
                                                              **kwargs))

        hat.event.eventer.client.connect = connect
        hat.event.eventer.connect = connect

        cls = hat.event.eventer.server.Server
        set_status = cls.set_status

        async def wrapped(self, status):
            inc = drv.current_inc()
            if inc is not None:
                drv.on_set_status(inc, status.name)
            return await set_status(self, status)

        cls.set_status = wrapped

        # Defect of hat-monitor (not part of this repository): blessing which
        # is revoked before component responds to it is held forever, and
        # monitor doesn't bless any other component.
        import hat.monitor.component
        comp_cls = hat.monitor.component.Component
        get_token = comp_cls._get_blessed_and_ready_token

        async def get_blessed_and_ready_token(self):
            if self._blessing_res.token is not None:
                drv.probe('monitor_shim')
                await self._change_blessing_res(token=None)
            return await get_token(self)

        comp_cls._get_blessed_and_ready_token = get_blessed_and_ready_token

    def current_inc(self):
        proc = self.w.proc
        for srv in self.servers.values():
            if srv.inc and srv.inc.proc is proc:
                return srv.inc

    async def link_connect(self, inc, orig, bound):
        args = dict(bound.arguments)
        args.update(args.pop('kwargs', {}))
        addr = args.pop('addr')
        name = args.pop('client_name')
        peer = next((s for s in self.servers.values()
                     if s.node.host == addr.host), None)
        srv = inc.srv
        ctx = self.ctx
        if not ctx.check(['C15', 'C22'], 'peer', peer is not None and
                         peer is not srv and addr.port == PORT,
                         lambda: f'{inc} connects to {addr}'):
            return await orig(addr, name, **args)
        ctx.check('C15', 'peer-token', srv.conf['token'] is None or
                  srv.conf['token'] == peer.conf['token'],
                  lambda: f'{inc} with token {srv.conf["token"]} synchronizes '
                          f'with {peer.name} with token '
                          f'{peer.conf["token"]}')
        link = Link(self, inc, peer, args)
        self.links.append(link)
        status_cb = args.pop('status_cb', None)
        events_cb = args.pop('events_cb', None)

        def on_status(client, status):
            link.on_status(status)
            if status_cb:
                return status_cb(client, status)

        def on_events(client, events):
            if events_cb:
                return events_cb(client, events)

        client = await orig(addr, name, status_cb=on_status,
                            events_cb=on_events, **args)
        link.peer_inc = peer.peer_inc(inc.proc, PORT)
        link.client = client
        link.t = self.w.now
        if link.status is None:
            link.status = client.status.name
            link.status_t = self.w.now
        self.w.trace('link', repr(inc), peer.name, link.status)
        register = client.register
        query = client.query

        async def do_register(events, *a, **kw):
            events = list(events)
            link.on_report(events)
            return await register(events, *a, **kw)

        async def do_query(params, *a, **kw):
            result = await query(params, *a, **kw)
            link.query_count += len(result.events)
            return result

        client.register = do_register
        client.query = do_query
        return client

    # configuration

    def port(self, srv):
        return PORT

    def server_token(self, srv):
        return srv.conf['token']

    def server_conf(self, srv):
        c = srv.conf
        conf = {'type': 'event', 'name': srv.name, 'server_id': srv.sid,
                'backend': {
                    'module': 'sim.probe', 'srv': srv.name,
                    'reg_delay': c['reg_delay'], 'page': c['page'],
                    'qdelay': c['qdelay'],
                    'real': {'module': 'hat.event.backends.lmdb',
                             'db_path': str(srv.node.root / 'event.db'),
                             'identifier': None,
                             'flush_period': c['flush_period'],
                             'cleanup_period': 60, 'conditions': [],
                             'latest': {'subscriptions': [['*']]},
                             'timeseries': [{'order_by': 'TIMESTAMP',
                                             'subscriptions': [['*']]}]}},
                'modules': [dict(m, module='sim.mods', srv=srv.name)
                            for m in c['modules']],
                'eventer_server': {'host': srv.node.host, 'port': PORT},
                'monitor_component': {'host': srv.mon.node.host,
                                      'port': MON_PORT, 'group': 'event'}}
        if c['token'] is not None:
            conf['server_token'] = c['token']
        inc = srv.inc
        if (not srv.mon.up or srv.mon.runner is None or
                self.w.net.link(srv.node, srv.mon.node).blocked_since
                is not None):
            self.excuse(inc)
        return conf

    def excuse(self, inc):
        """Server may exit because connection to its monitor is lost"""
        if inc and inc.alive and inc.exit_ok is None:
            inc.exit_ok = 'monitor'
            inc.t_exit_ok = self.w.now

    def excuse_mon(self, mon):
        for srv in self.servers.values():
            if srv.mon is mon:
                self.excuse(srv.inc)
        for comp in self.comps.values():
            if comp.mon is mon:
                comp.t_mon = max(comp.t_mon, self.w.now, mon.stall_end)

    def on_log(self, name, msg):
        # hat-monitor drops a client when its change of state meets closing
        # connection of another client (dependency, not code under test)
        if (name == 'hat.monitor.observer.server' and
                msg.startswith('client loop error') and
                msg.endswith('): ')):
            for mon in self.mons:
                if self.w.proc is mon.proc:
                    self.probe('monitor_dropped_client')
                    self.excuse_mon(mon)

    # oracles of redundancy

    def is_active(self, srv):
        """Server runs an engine"""
        inc = srv.inc
        if not inc or not inc.alive or not inc.runs:
            return False
        run = inc.runs[-1]
        return (run.started is not None and run.stopped is None or
                any(not m.is_closed for m in run.modules))

    def on_engine_start(self, srv, inc, run):
        self.w.trace('engine', repr(inc), run.n)
        if not self.clean or self.mon_disturbed:
            return
        for other in self.servers.values():
            if other is srv:
                continue
            self.ctx.check('C19', 'two-active', not self.is_active(other),
                           lambda: f'{inc} starts engine while {other.inc} '
                                   f'runs one')

    may_lose_blessing = True
    mon_disturbed = False

    def on_set_status(self, inc, status):
        if status != self.last_status.get(inc, 'STANDBY') and (
                status == 'STANDBY'):
            # last session which precedes this notification
            self.standbys[inc].append([
                s for s in inc.sessions if s.server == inc.srv.sid and
                s.run is not None and s.kind == 'STOPPED'][-1:])
        self.last_status[inc] = status
        if status != 'STARTING':
            return
        ctx = self.ctx
        now = self.w.now
        for link in self.links:
            if link.inc is not inc or not link.is_open:
                continue
            fresh = max(link.status_t, inc.stall_end) > now - NS // 20
            ctx.check('C20', 'peer-active', link.status == 'STANDBY' or fresh,
                      lambda: f'{inc} starts engine while connected '
                              f'{link.peer.name} reports {link.status} '
                              f'(since {link.status_t / NS:.3f})')
            if link.standby and link.status == 'STANDBY' and not fresh:
                self.probe('handover')
                have = {s.events[0].id for s in inc.sessions
                        if s.server == link.peer.sid}
                for s in link.standby:
                    ctx.check('C20', 'handover', s.events[0].id in have,
                              lambda: f'{inc} starts engine without {s} of '
                                      f'{link.peer.name} which gracefully '
                                      f'stopped')

    def own_sessions(self, srv):
        inc = srv.inc
        if inc is None or inc.opened is None:
            inc = next((i for i in reversed(srv.incs)
                        if i.opened is not None), None)
        return [s for s in inc.sessions
                if s.server == srv.sid] if inc else []

    def on_remote_session(self, srv, inc, s):
        ctx = self.ctx
        peer = self.by_sid.get(s.server)
        if not ctx.check('C17', 'unknown-server', peer is not None,
                         lambda: f'{inc}: {s}'):
            return
        own = self.own_sessions(peer)
        first = s.events[0].id
        idx = next((i for i, t in enumerate(own)
                    if t.events[0].id.session == first.session), None)
        if not ctx.check(['C17', 'C18'], 'invented', idx is not None,
                         lambda: f'{inc}: {s} was not registered by '
                                 f'{peer.name}'):
            return
        if not ctx.check(['C17', 'C18'], 'content',
                         s.events == own[idx].events,
                         lambda: f'{inc}: {s} registered by {peer.name} as '
                                 f'{own[idx]}'):
            return
        held = [t for t in inc.sessions if t.server == s.server and
                t is not s]
        prev = held[-1].events[0].id if held else None
        want = own[idx - 1].events[0].id if idx else None
        self.probe('remote_session')
        ctx.check(['C17', 'C18'], 'sequence', prev == want,
                  lambda: f'{inc}: {s} of {peer.name} registered after '
                          f'{prev}, {peer.name} has {want} before it')

    def after_open(self, srv, inc):
        """Sessions lost by crash are not known to others"""
        if len(srv.incs) < 2:
            return
        have = {s.events[0].id: s for s in self.own_sessions(srv)}
        for other in self.servers.values():
            if other is srv or not other.inc:
                continue
            for s in other.inc.sessions:
                if s.server != srv.sid:
                    continue
                mine = have.get(s.events[0].id)
                self.ctx.check(
                    ['C18', 'C07'], 'not-persisted-sent', mine is not None and
                    mine.events == s.events,
                    lambda: f'{other.inc} has {s} which {srv.name} lost')

    def on_synced_event(self, srv, inc, run, s, event):
        ctx = self.ctx
        local, remote = event.type[1], event.type[3]
        data = getattr(event.payload, 'data', None)
        if local == str(srv.sid):
            # local events are part of reported states, in the same order
            states = [i for link in self.links if link.inc is inc and
                      str(link.peer.sid) == remote for i in link.states()]
            pos = inc.synced_pos.get(remote, 0)
            item = (data.get('state'), data.get('count'))
            idx = next((i for i in range(pos, len(states))
                        if states[i] == item), None)
            if not ctx.check('C21', 'local', idx is not None,
                             lambda: f'{inc}: local {event}, reported '
                                     f'{states}, {pos} already seen'):
                return
            inc.synced_pos[remote] = idx + 1
            return
        peer = self.by_sid.get(int(local)) if local.isdigit() else None
        ok = peer is not None and remote == str(srv.sid) and any(
            link.inc.srv is peer and link.peer is srv and
            (data.get('state'), data.get('count')) in
            [r[2:] for r in link.reports] for link in self.links)
        ctx.check('C21', 'remote', ok, lambda: f'{inc}: {event} was not '
                                               f'reported')

    def on_conn_event(self, srv, inc, run, s, event):
        name = event.type[3]
        if name.startswith('event/') or name.startswith('comp/'):
            known = ({f'event/{n}' for n in self.servers} |
                     {f'comp/{n}' for n in self.comps})
            self.ctx.check('C14', 'unknown-name', name in known,
                           lambda: f'{event}')
            return
        super().on_conn_event(srv, inc, run, s, event)

    def on_reset_ready(self, srv, inc):
        run = inc.runs[-1] if inc.runs else None
        self.probe('reset_ready')
        inc.t_reset = self.w.now
        inc.after(75, self.check_reset, srv, inc, run)

    def check_reset(self, srv, inc, run):
        if (inc is not srv.inc or not inc.alive or inc.t_stop is not None or
                inc.exit_ok or run is None or self.w.stopped):
            return
        self.probe('reset_checked')
        self.ctx.check('C26', 'reset', inc.runs[-1] is not run or
                       run.stopped is not None or run.started is None,
                       lambda: f'{inc}: still operational 75 s after reset '
                               f'of monitor ready')

    def restart_excused(self, srv, inc):
        # server can loose its blessing
        info = srv.mon.info(srv.name)
        return (info is None or info.blessing_req.token is None or
                not inc.runs or inc.runs[-1].stopped is not None)

    # execution

    def on_sync_delay(self, srv):
        """Events registered by other servers while synchronization state is
        being processed"""
        if self.healed:
            return
        for cl in self.clients.values():
            if cl.spec['server'] != srv.name:
                self.w.after(0, cl.op, {
                    'k': 'reg', 'events': [[['a', 'x'], None, None]],
                    'resp': False, 'rep': 2})

    def run(self):
        w = self.w
        plan = self.plan
        horizon = ns(plan['horizon'])
        for m in self.mons:
            w.at(0, m.start)
        for s in self.servers.values():
            w.at(ns(s.conf['start']), s.start)
        for cl in self.clients.values():
            w.at(ns(cl.spec['start']), cl.start)
        for c in self.comps.values():
            w.at(ns(c.spec['start']), c.start)
            for t in c.spec['self_close']:
                w.at(ns(t), c.self_close)
        for op in plan['ops']:
            w.at(ns(op['t']), self.clients[op['c']].op, op)
        for f in plan['faults']:
            w.at(ns(f['t']), self.fault, f)
        w.at(horizon, self.heal)
        w.after(2 * NS, self.watch)
        while not w.stopped and self.phase != 'finished':
            if self.phase == 'failed':
                break
            if w.now > horizon + 1200 * NS:
                raise core.HarnessError(f'stuck in phase {self.phase}')
            w.run(w.now + NS)
        self.ctx.samples.append({
            'servers': len(self.servers), 'monitors': len(self.mons),
            'clients': len(self.clients), 'components': len(self.comps),
            'ops': len(plan['ops']), 'faults': plan['faults'],
            'incarnations': {n: len(s.incs)
                             for n, s in self.servers.items()},
            'engine_runs': sum(len(i.runs) for s in self.servers.values()
                               for i in s.incs),
            'links': len(self.links),
            'sessions': sum(len(s.sessions)
                            for s in self.servers.values())})

    def watch(self):
        """Blessed server, without active remotes, starts its engine"""
        if self.w.stopped:
            return
        self.w.after(2 * NS, self.watch)
        for srv in self.servers.values():
            inc = srv.inc
            if not inc or not inc.alive:
                continue
            info = srv.mon.info(srv.name)
            if (inc.t_stop is not None or inc.exit_ok or
                    inc.t_opened is None or inc.stall_end > self.w.now or
                    info is None or info.blessing_req.token is None or
                    info.blessing_req.token != info.blessing_res.token or
                    info.data.get('server_id') != srv.sid or
                    self.is_active(srv) or
                    # up to 30 s while master monitor can not be reached
                    inc.t_reset is not None and
                    self.w.now < inc.t_reset + 33 * NS or
                    any(i.is_open and i.status != 'STANDBY'
                        for i in self.links if i.inc is inc)):
                inc.idle = None
                continue
            if inc.idle is None or inc.idle[1] != len(inc.runs):
                inc.idle = (self.w.now, len(inc.runs))
            self.ctx.check(['C20', 'C26', 'C19'], 'not-started',
                           self.w.now - inc.idle[0] < 30 * NS,
                           lambda: f'{inc} is blessed, without active '
                                   f'remotes, but does not start engine')

    def node(self, name):
        return self.nodes[name]

    def disturb(self, *names):
        """Connections between given nodes are disturbed"""
        mons = [m for i, m in enumerate(self.mons) if f'm{i}' in names]
        for m in mons:
            self.mon_disturbed = True
            for n in names:
                srv = self.servers.get(n)
                if srv and srv.mon is m:
                    self.excuse(srv.inc)
                    srv.node.mon_since = self.w.now

    def fault(self, f):
        if self.healed:
            return
        w = self.w
        k = f['f']
        srv = self.servers[f['s']]
        inc = srv.inc
        if k == 'crash':
            srv.crash(f['power'], f['delay'])
        elif k == 'armcrash':
            srv.node.disk.arm({'on': f['on'], 'skip': f['skip'],
                               'do': f['do'], 'cb': srv.crash})
        elif k == 'slowdisk':
            srv.node.disk.arm({'on': 'any', 'skip': f['skip'], 'do': 'slow',
                               'dur': ns(f['dur'])})
        elif k == 'jump':
            srv.node.jump_clock(ns(f['d']))
        elif k == 'stop':
            srv.stop()
        elif k == 'part':
            a, b = self.node(f['a']), self.node(f['b'])
            w.net.partition(a, b)
            self.disturb(f['a'], f['b'])
            w.after(ns(f['d']), self.unpart, f['a'], f['b'])
        elif k in ('reset', 'sreset'):
            self.disturb(f['a'], f['b'])
            w.net.reset(self.node(f['a']), self.node(f['b']))
        elif k == 'slow':
            w.faults['slow_link'] += 1
            link = w.net.link(self.node(f['a']), self.node(f['b']))
            link.extra_latency = ns(min(f['d'], 2))
            w.after(ns(f['d'] * 3), self.fast_link, link)
        elif k == 'stall':
            if f['x'].startswith('m'):
                m = self.mons[int(f['x'][1:])]
                if m.up:
                    m.proc.stall(ns(f['d']))
                    m.stall_end = max(m.stall_end, w.now) + ns(f['d'])
                    if f['d'] > 8:
                        self.mon_disturbed = True
                        self.excuse_mon(m)
            else:
                inc = self.servers[f['x']].inc
                if inc and inc.alive:
                    inc.stall(ns(f['d']))
                    if inc.stall_end - w.now > 8 * NS:
                        self.excuse(inc)
                        self.mon_disturbed = True
        elif k == 'moncrash':
            m = self.mons[f['m']]
            self.mon_disturbed = True
            self.excuse_mon(m)
            m.crash(f['power'], f['delay'])
        elif k == 'rank':
            srv.mon.set_rank(srv.name, f['rank'])
        elif k == 'restart':
            run = inc.runs[-1] if inc and inc.runs else None
            if inc and inc.alive and run and run.modules and (
                    run.modules[0].is_open):
                inc.proc.call(self.do_restart, srv, run.modules[0])
        elif k in ('creset', 'cpart', 'ccrash'):
            comp = self.comps[f['k']]
            if k == 'ccrash':
                comp.crash(f['d'] > 1)
                return
            other = comp.mon.node if f['mon'] else srv.node
            if f['mon']:
                comp.t_mon = max(comp.t_mon, w.now + ns(f['d']))
            fn = (w.net.reset if k == 'creset' else self.cpart)
            args = (comp.node, other) + ((f['d'], ) if k == 'cpart' else ())
            if f['after'] and not f['mon']:
                # just after runner was created
                w.net.reset(comp.node, other)

                def do():
                    for s in self.servers.values():
                        w.net.reset(comp.node, s.node)
                comp.on_created = do
            else:
                fn(*args)
        else:
            raise core.HarnessError(f'fault {f}')

    def cpart(self, a, b, d):
        self.w.net.partition(a, b)
        self.w.after(ns(d), self.w.net.heal, a, b)

    def do_restart(self, srv, m):
        srv.on_restart_request(m)
        m.engine.restart()

    def unpart(self, a, b):
        self.w.net.heal(self.node(a), self.node(b))
        self.disturb(a, b)

    def fast_link(self, link):
        link.extra_latency = 0

    # final phase

    def heal(self):
        self.healed = True
        w = self.w
        for a, b in itertools.combinations(self.nodes, 2):
            if w.net.link(self.node(a), self.node(b)).blocked_since \
                    is not None:
                self.disturb(a, b)
        self.t_heal = w.now
        w.net.heal_all()
        for link in w.net.links.values():
            link.extra_latency = 0
        for srv in self.servers.values():
            srv.node.disk.triggers.clear()
        for c in self.comps.values():
            c.on_created = None
        w.trace('heal')
        w.after(5 * NS, w.calm)
        end = max([w.now] + [s.inc.stall_end for s in self.servers.values()
                             if s.inc] + [m.stall_end for m in self.mons])
        w.at(end + SETTLE * NS, self.check_stable)

    def operational(self):
        out = []
        for srv in self.servers.values():
            inc = srv.inc
            run = inc.runs[-1] if inc and inc.alive and inc.runs else None
            if run and run.started and run.stopped is None:
                out.append(srv)
        return out

    def pairs(self):
        for x in self.servers.values():
            for y in self.servers.values():
                if x is not y and x.conf['token'] in (None,
                                                      y.conf['token']):
                    yield x, y

    def check_up(self):
        for srv in self.servers.values():
            if not srv.restart_allowed:
                continue
            inc = srv.inc
            if not self.ctx.check('C22', 'not-up', inc and inc.alive and
                                  inc.opened is not None,
                                  lambda: f'{srv.name} is not running: '
                                          f'{inc}'):
                return False
        return True

    def check_stable(self):
        self.phase = 'failed'
        self._check_stable()

    def _check_stable(self):
        ctx = self.ctx
        w = self.w
        if not self.check_up():
            return
        oper = self.operational()
        if not ctx.check(['C19', 'C20', 'C22'], 'none-active', oper,
                         'no server is operational '
                         f'{SETTLE} s after faults ended'):
            return
        ctx.check('C19', 'several-active', len(oper) == 1,
                  lambda: f'{[i.name for i in oper]} are operational')
        for x, y in self.pairs():
            open_links = [i for i in self.links if i.inc is x.inc and
                          i.peer is y and i.is_open]
            if not ctx.check('C22', 'not-connected', len(open_links) == 1,
                             lambda: f'{x.name} has {len(open_links)} '
                                     f'connections to {y.name}'):
                return
            link = open_links[0]
            ctx.check(['C17', 'C22', 'C21'], 'not-synced',
                      link.synced_seq is not None,
                      lambda: f'{link}: not synchronized: {link.reports}')
            status = 'OPERATIONAL' if y in oper else 'STANDBY'
            ctx.check('C13', 'peer-status', link.status == status,
                      lambda: f'{link}: {y.name} is {status}')
        for link in self.links:
            if link.client is not None:
                link.check_count()
        for cl in self.clients.values():
            conn = cl.conn
            if not ctx.check(['C22', 'C12'], 'client', conn is not None,
                             lambda: f'{cl.name} is not connected'):
                return
            status = 'OPERATIONAL' if conn.srv in oper else 'STANDBY'
            ctx.check('C13', 'converged', conn.status == status,
                      lambda: f'{conn}: status {conn.status}, '
                              f'{conn.srv.name} is {status}')
        self.check_comps()
        for cl in self.clients.values():
            for conn in cl.conns:
                self.check_notifs(conn, True)
                self.check_disconnected(conn, 60 * NS)
        for srv in self.servers.values():
            info = srv.mon.info(srv.name)
            ctx.check('C26', 'not-ready', info is not None and
                      info.blessing_res.ready,
                      lambda: f'{srv.name} is not ready: {info}')
        # new events reach everybody
        self.final_reqs = []
        for cl in self.clients.values():
            if cl.conn and cl.conn.t_closed is None and (
                    cl.target() in oper):
                cl.proc.start(self.final_register, cl, cl.conn)
        self.phase = 'stable'
        w.after(30 * NS, self.check_converged)

    async def final_register(self, cl, conn):
        req = self.make_req(conn, [[['a', 'x'], None, None]], 0)
        self.final_reqs.append((req, conn.srv.inc.runs[-1]))
        await cl.register(conn, req, True)

    def check_converged(self):
        self.phase = 'failed'
        self._check_converged()

    def _check_converged(self):
        ctx = self.ctx
        if not self.check_up():
            return
        for req, run in self.final_reqs:
            ctx.check(['C22', 'C12'], 'final-register',
                      req.result == 'ok' or run.stopped is not None,
                      lambda: f'{req} is not served')
        for x, y in self.pairs():
            have = {s.events[0].id for s in x.inc.sessions
                    if s.server == y.sid and (s.done is not None or
                                              s.inc is not x.inc)}
            for s in self.own_sessions(y):
                if (s.inc is y.inc and (s.pers_ann is None or
                                        s.t > self.w.now - 15 * NS)):
                    continue
                if not ctx.check(['C17'], 'missing', s.events[0].id in have,
                                 lambda: f'{x.name} does not have {s} '
                                         f'persisted by {y.name}'):
                    return
        # graceful handover
        oper = self.operational()
        self.final_srv = oper[0] if oper else None
        if self.final_srv and len(self.servers) > 1:
            self.final_srv.stop(restart=False)
        self.phase = 'handover'
        self.w.after(70 * NS, self.check_handover)

    def check_handover(self):
        ctx = self.ctx
        if self.final_srv is None:
            self.phase = 'finished'
            return
        oper = self.operational()
        if ctx.check(['C19', 'C20', 'C22'], 'no-takeover', oper and
                     self.final_srv not in oper,
                     lambda: f'no server took over after '
                             f'{self.final_srv.name} was stopped'):
            srv = oper[0]
            old = self.final_srv
            if (srv, old) in list(self.pairs()):
                run = srv.inc.runs[-1]
                pos = srv.inc.sessions.index(run.started)
                have = {s.events[0].id for s in srv.inc.sessions[:pos]}
                for s in self.own_sessions(old):
                    if not ctx.check(
                            'C20', 'handover-missing',
                            s.events[0].id in have,
                            lambda: f'{srv.name} took over without {s} of '
                                    f'{old.name}'):
                        break
        self.phase = 'finished'

    def check_comps(self):
        """Every component which is let to run has its runner"""
        ctx = self.ctx
        oper = self.operational()
        for c in self.comps.values():
            comp = c.component
            runners = [r for r in c.runners if r.is_open]
            if comp is None or not comp.is_open:
                ctx.violate('C23', 'component-closed',
                            f'{c.name} is not connected')
                continue
            info = comp.state.info
            blessed = (info and info.blessing_req.token is not None and
                       info.blessing_req.token == info.blessing_res.token)
            ctx.check('C23', 'runners', len(runners) <= 1 and (
                blessed or not runners),
                lambda: f'{c.name}: {len(runners)} runners, blessed '
                        f'{blessed}')
            if not blessed or len(oper) != 1:
                continue
            srv = oper[0]
            if c.spec['token'] not in (None, srv.conf['token']):
                ctx.check('C15', 'component', not runners,
                          lambda: f'{c.name} runs with server with other '
                                  f'token')
                continue
            if not ctx.check('C23', 'no-runner', len(runners) == 1,
                             lambda: f'{c.name}: no runner although '
                                     f'{srv.name} is active for a long '
                                     f'time'):
                continue
            r = runners[0]
            self.probe('runner_checked')
            ctx.check('C23', 'runner-server', r.client.is_open and
                      r.server_data.server_id == srv.sid,
                      lambda: f'{c.name}: runner for {r.server_data}, active '
                              f'is {srv.name}')
