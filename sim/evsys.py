"""Harness of simulated event systems: servers, clients, history and oracles.

`Server` supervises real `hat.event.server.main.async_main` on a simulated
node, with the recording backend wrapper (`sim.probe`) and recording modules
(`sim.mods`).  `Cl` is a simulated host using the real
`hat.event.eventer` client.  Oracles are written from the statements in
properties.jsonl and only use observable behaviour: calls to the backend and
modules, messages received by clients, process exits, and durable content.
"""

import asyncio
import collections
import itertools
import os

from . import core
from .core import NS, ns


S_ENGINE = 'engine'


def pick(rng, items):
    return items[int(rng.random() * len(items))]


class Sess:
    """One backend registration"""

    __slots__ = ('idx', 'server', 'events', 'call', 'done', 'error',
                 'reg_ann', 'pers_ann', 'req', 'run', 'inc', 'kind', 't',
                 'lost')

    def __init__(self, idx, events):
        self.idx = idx
        self.server = None
        self.events = events
        self.call = None
        self.done = None
        self.error = None
        self.reg_ann = None
        self.pers_ann = None
        self.req = None
        self.run = None
        self.inc = None
        self.kind = None
        self.lost = False

    def __repr__(self):
        ids = [tuple(i.id) for i in self.events[:4]]
        return f'<S{self.idx} {self.kind} n={len(self.events)} {ids}>'


class Req:
    """One register request"""

    __slots__ = ('owner', 'order', 'events', 'marks', 'sent', 'result',
                 'result_events', 'done', 'sess', 't', 't_done', 'with_resp',
                 'status')

    def __init__(self, owner, order, events, marks):
        self.owner = owner
        self.order = order
        self.events = events
        self.marks = marks
        self.sent = None
        self.done = None
        self.result = None      # 'ok', 'failure', 'error', 'sent'
        self.result_events = None
        self.sess = None
        self.t = None
        self.t_done = None
        self.with_resp = False
        self.status = None

    def __repr__(self):
        return (f'<Req {self.owner} #{self.order} n={len(self.events)} '
                f'marks={self.marks[:3]} {self.result}>')


class Run:
    """Engine run"""

    def __init__(self, inc, n):
        self.inc = inc
        self.n = n
        self.engine = None
        self.modules = []
        self.cur = None
        self.started = None
        self.stopped = None
        self.stopping = False
        self.sessions = []
        self.t = None
        self.t_stopped = None

    def __repr__(self):
        return f'<Run {self.inc}.{self.n}>'


class Inc:
    """Server process incarnation"""

    def __init__(self, srv, n, proc):
        self.srv = srv
        self.n = n
        self.proc = proc
        self.sessions = []      # surviving and new sessions, in order
        self.anns = {False: [], True: []}
        self.runs = []
        self.task = None
        self.opened = None      # seq when backend was opened
        self.t_opened = None
        self.synced_pos = {}
        self.idle = None
        self.t_reset = None
        self.t = srv.w.now
        self.t_exit = None
        self.t_stop = None      # graceful stop requested
        self.exit_ok = None     # reason why process may exit by itself
        self.real = None
        self.max_id = {}
        self.last_ts = None
        self.last_t = {}
        self.storage_failed = False
        self.how = None
        self.t_exit_ok = None
        self.stall_end = 0

    def stall(self, duration):
        self.proc.stall(duration)
        self.stall_end = max(self.stall_end, self.srv.w.now) + duration

    def after(self, bound, fn, *args):
        """Call once bound has passed, not counting stalls of process"""
        w = self.srv.w
        start = w.now

        def check():
            if self.alive and self.stall_end > start and (
                    w.now < self.stall_end + ns(bound)):
                w.at(self.stall_end + ns(bound), check)
            else:
                fn(*args)
        w.after(ns(bound), check)

    def __repr__(self):
        return f'{self.srv.name}#{self.n}'

    @property
    def alive(self):
        return self.proc.alive and self.t_exit is None


class Ctx:

    def __init__(self, session_id):
        self.session_id = session_id
        self.started = {}
        self.processed = collections.defaultdict(list)
        self.returns = []
        self.stopped = {}
        self.active = collections.Counter()


class Server:

    def __init__(self, drv, name, host, sid, conf, restart_delay=1.0,
                 **node_args):
        self.drv = drv
        self.w = drv.w
        self.ctx = drv.ctx
        self.common = drv.common
        self.name = name
        self.sid = sid
        self.conf = conf
        self.node = self.w.add_node(name, host,
                                    root=drv.ctx.scratch / name, **node_args)
        os.mkdir(self.node.root)
        self.incs = []
        self.inc = None
        self.durable = {}           # ids known durable -> event
        self.durable_max = {}
        self.raise_next = set()
        self.restart_delay = restart_delay
        self.restart_allowed = True
        self.restarts_wanted = 0
        self.pending_start = False
        self.sessions = []          # all sessions ever
        self.by_id = {}             # (inc, id) -> Sess
        self.create_fail = 0
        self.all_durable = {}       # id -> event that were ever persisted
        self.frozen = False
        self.bg_done = set()
        self.session_counts = {}
        self.listed = {}         # client names known to modules
        self.create_counts = {}

    def peer_inc(self, proc, port):
        """Incarnation which accepted last connection of the process"""
        peer = proc.peers.get((self.node.name, port))
        return next((i for i in self.incs if i.proc is peer), self.inc)

    # life cycle

    def start(self):
        self.pending_start = False
        if self.inc and self.inc.alive:
            return
        n = len(self.incs) + 1
        proc = self.node.spawn(f'p{n}')
        self.inc = Inc(self, n, proc)
        self.incs.append(self.inc)
        self.raise_next = set()
        proc.start(self.main, self.inc)

    async def main(self, inc):
        from hat.event.server.main import async_main
        conf = self.drv.server_conf(self)
        loop = asyncio.get_running_loop()
        inc.task = loop.create_task(async_main(conf))
        error = None
        try:
            await asyncio.wait([inc.task])
            if inc.task.cancelled():
                error = None
            else:
                error = inc.task.exception()
        finally:
            pass
        self.on_exit(inc, error)

    def on_exit(self, inc, error):
        inc.t_exit = self.w.now
        if inc.how is None:
            inc.how = 'stop' if inc.t_stop is not None else 'self'
        self.w.trace('exit', self.name, inc.how, repr(error))
        if inc.t_stop is None:
            self.w.faults['server_exit'] += 1
        if inc.t_stop is None and not inc.exit_ok:
            logs = [i for i in self.w.logs if i[3] in ('ERROR', 'WARNING')]
            self.ctx.violate(self.drv.exit_props, 'server-exit',
                             f'{inc} stopped by itself: {error!r} '
                             f'{[i[4:] for i in logs[-4:]]}')
        self.end_inc(inc, graceful=True)
        inc.proc.kill()
        self.node.disk.crash(False)
        self.schedule_start()

    def schedule_start(self, delay=None):
        if not self.restart_allowed or self.pending_start:
            return
        self.pending_start = True
        if delay is None:
            rng = self.w.rng(f'restart/{self.name}')
            delay = self.restart_delay * (0.05 + rng.random())
        self.w.after(ns(delay), self._delayed_start)

    def _delayed_start(self):
        if self.pending_start and self.restart_allowed:
            self.start()

    def crash(self, power=False, delay=None):
        inc = self.inc
        if not inc or not inc.alive:
            return
        inc.how = 'crash'
        inc.t_exit = self.w.now
        self.node.crash(power)
        self.schedule_start(delay)

    def stop(self, restart=True):
        """Graceful stop"""
        inc = self.inc
        if not inc or not inc.alive or inc.task is None:
            return
        if inc.t_stop is not None:
            return
        inc.t_stop = self.w.now
        self.w.faults['graceful_stop'] += 1
        self.w.trace('stop', self.name)
        if not restart:
            self.restart_allowed = False
        inc.proc.call(inc.task.cancel)
        inc.after(self.drv.stop_bound, self.check_stopped, inc)

    def check_stopped(self, inc):
        # both sides of a connection closed it with unsent data and full
        # windows - client does not accept what was sent to it
        if inc.alive and any(
                e.closing and e.out and e.peer().closing and e.peer().out and
                not e.peer().dead for e in inc.proc.endpoints.values()):
            self.drv.probe('stop_excused')
            return
        self.ctx.check('C24', 'stop-bound', not inc.alive,
                       lambda: f'{inc} is not closed {self.drv.stop_bound} s '
                               f'after graceful stop was requested')

    def end_inc(self, inc, graceful):
        run = inc.runs[-1] if inc.runs else None
        ok = graceful and not inc.storage_failed
        if not ok:
            return
        self.drv.probe('graceful_exit')
        self.check_modules_closed(inc, inc.runs)
        if run and run.started and not self.drv.skip_stopped:
            self.ctx.check(
                ['C24', 'C08'], 'no-stopped', run.stopped is not None,
                lambda: f'{inc} closed without STOPPED event')
            own = [s for s in inc.sessions if s.server == self.sid and
                   s.inc is inc]
            if own:
                self.ctx.check(
                    ['C24', 'C08'], 'stopped-last', own[-1].kind == 'STOPPED',
                    lambda: f'{inc}: last session {own[-1]}')
        for s in inc.sessions:
            if s.inc is inc and s.done is not None and s.error is None:
                self.ctx.check(
                    'C24', 'not-persisted', s.pers_ann is not None,
                    lambda: f'{inc}: {s} not announced as persisted when '
                            f'server closed')

    # backend

    async def on_backend_open(self, inc, real):
        """Compare durable content with history, before server uses it"""
        inc.real = real
        common = self.common
        drv = self.drv
        found = {}
        for sid in drv.server_ids:
            q = common.QueryServerParams(server_id=sid, persisted=True)
            ids = []
            while True:
                r = await real.query(q)
                events = list(r.events)
                ids.extend(events)
                if not r.more_follows:
                    break
                q = q._replace(last_event_id=events[-1].id)
            found[sid] = ids
        last = {sid: await real.get_last_event_id(sid)
                for sid in drv.server_ids}
        prev = next((i for i in reversed(self.incs) if i is not inc and
                     i.opened is not None), None)
        history = prev.sessions if prev else []
        have = {e.id: e for sid in found for e in found[sid]}
        props = ['C01', 'C02']
        if prev and prev.how in ('stop', 'self'):
            props.append('C24')
        keep = []
        cut = None
        for s in history:
            n = sum(1 for e in s.events if e.id in have)
            if n == len(s.events) and cut is None:
                keep.append(s)
                for e in s.events:
                    if not self.ctx.check(props, 'content', have[e.id] == e,
                                          lambda: f'{have[e.id]} != {e}'):
                        return
                continue
            must = s.pers_ann is not None or (
                prev.how in ('stop', 'self') and s.done is not None and
                s.error is None and not prev.storage_failed)
            if not self.ctx.check(
                    props, 'lost', not must,
                    lambda: f'{self.name}: persisted {s} lost after restart '
                            f'(previous process: {prev.how})'):
                return
            if not self.ctx.check(
                    ['C02'], 'partial', n == 0,
                    lambda: f'{self.name}: {s} present in part after '
                            f'{cut or "-"}'):
                return
            if cut is None:
                cut = s
            s.lost = True
        known = {e.id for s in keep for e in s.events}
        extra = [i for i in have if i not in known]
        if not self.ctx.check(['C02'], 'extra', not extra,
                              lambda: f'{self.name}: unknown events '
                                      f'{extra[:5]}'):
            return
        inc.sessions = list(keep)
        self.durable = {}
        for s in keep:
            for e in s.events:
                self.durable[e.id] = e
        for sid in drv.server_ids:
            want = max((e.id for e in self.durable.values()
                        if e.id.server == sid),
                       default=common.EventId(sid, 0, 0))
            self.ctx.check(['C01', 'C02'], 'last-id', last[sid] == want,
                           lambda: f'{self.name}: last id {last[sid]} '
                                   f'expected {want}')
            inc.max_id[sid] = want
        last = self.durable.get(inc.max_id.get(self.sid))
        inc.last_ts = last.timestamp if last else None
        inc.opened = self.drv.seq()
        inc.t_opened = self.w.now
        self.w.trace('open', self.name, len(keep))
        if drv.after_open:
            drv.after_open(self, inc)

    def on_register_call(self, inc, events):
        drv = self.drv
        events = list(events)
        s = Sess(len(self.sessions), events)
        s.inc = inc
        s.call = drv.seq()
        s.t = self.w.now
        self.sessions.append(s)
        inc.sessions.append(s)
        self.w.trace('reg', self.name, len(events))
        if not self.ctx.check(['C08', 'C10'], 'empty', events,
                              'empty registration'):
            return s
        servers = {e.id.server for e in events}
        if not self.ctx.check(['C08', 'C18'], 'mixed', len(servers) == 1,
                              lambda: f'{s} mixes servers'):
            return s
        s.server = events[0].id.server
        if s.server == self.sid:
            self.check_own(inc, s)
        else:
            s.kind = 'remote'
            if drv.on_remote_session:
                drv.on_remote_session(self, inc, s)
        for e in events:
            inc.max_id[s.server] = max(inc.max_id[s.server], e.id)
        return s

    def check_own(self, inc, s):
        common = self.common
        ctx = self.ctx
        events = s.events
        prev = inc.max_id.get(self.sid)
        ids = [e.id for e in events]
        session = ids[0].session
        if not ctx.check('C08', 'ids',
                         all(i.session == session for i in ids) and
                         [i.instance for i in ids] ==
                         list(range(1, len(ids) + 1)),
                         lambda: f'{s}: invalid ids'):
            return
        if not ctx.check('C08', 'session', prev is None or
                         session > prev.session,
                         lambda: f'{s}: session not greater than {prev}'):
            return
        ctx.check('C08', 'timestamp',
                  all(e.timestamp == events[0].timestamp for e in events),
                  lambda: f'{s}: several timestamps')
        ctx.check('C08', 'time',
                  inc.last_ts is None or
                  events[0].timestamp >= inc.last_ts,
                  lambda: f'{s}: timestamp {events[0].timestamp} less than '
                          f'previous {inc.last_ts}')
        inc.last_ts = events[0].timestamp
        for e in events:
            old = self.all_durable.get(e.id)
            if not ctx.check('C08', 'reused', old is None,
                             lambda: f'{e.id} reused: {old} {e}'):
                return
        # engine run
        st = ('event', str(self.sid), 'engine')
        first = events[0]
        payload = getattr(first.payload, 'data', None)
        run = inc.runs[-1] if inc.runs else None
        if first.type == st and payload == 'STARTED':
            s.kind = 'STARTED'
            if run is None or run.started:
                if not ctx.check(['C08', 'C26'], 'no-stopped-between',
                                 run is None or run.stopped is not None,
                                 lambda: f'{inc}: STARTED without STOPPED'):
                    return
                run = self.new_run(inc)
            run.started = s
            run.t = self.w.now
            s.run = run
            run.sessions.append(s)
        elif first.type == st and payload == 'STOPPED':
            s.kind = 'STOPPED'
            if run is None or (run.stopped is not None and not run.engine):
                # engine was closed before its first session completed
                run = self.new_run(inc)
            if not ctx.check('C08', 'stopped', run.stopped is None and
                             len(events) == 1,
                             lambda: f'{inc}: unexpected {s}'):
                return
            if not run.started:
                self.drv.probe('stopped_without_started')
            run.stopped = s
            run.t_stopped = self.w.now
            s.run = run
            return
        else:
            s.kind = 'own'
            if not ctx.check('C08', 'outside-run', run is not None and
                             run.started is not None and
                             run.stopped is None,
                             lambda: f'{inc}: {s} outside of engine run'):
                return
            s.run = run
            run.sessions.append(s)
        self.check_session(inc, run, s)
        self.link_request(inc, run, s)

    def new_run(self, inc):
        run = Run(inc, len(inc.runs) + 1)
        inc.runs.append(run)
        self.w.trace('run', self.name, run.n)
        return run

    def on_register_done(self, inc, s, error):
        s.done = self.drv.seq()
        s.error = error

    def on_announce(self, inc, persisted, events):
        events = list(events)
        seq = self.drv.seq()
        inc.anns[persisted].append((seq, events))
        if not events:
            return
        for s in reversed(inc.sessions):
            if s.events and s.events[0].id == events[0].id:
                break
        else:
            self.ctx.violate('C07', 'announce', 'unknown session announced')
            return
        if persisted:
            self.ctx.check('C07', 'persisted-twice', s.pers_ann is None,
                           lambda: f'{s} persisted twice')
            s.pers_ann = seq
            for e in s.events:
                self.all_durable[e.id] = e
        else:
            s.reg_ann = seq
        self.ctx.check('C07', 'announce-content', events == s.events,
                       lambda: f'{s} announced as {len(events)} events')
        if self.drv.on_announced:
            self.drv.on_announced(self, inc, s, persisted)

    # modules

    def create_fails(self, conf):
        if self.create_fail and conf['idx'] == self.create_fail - 1:
            self.create_fail = 0
            self.w.faults['module_create_fail'] += 1
            if self.inc.exit_ok is None:
                self.inc.exit_ok = 'module create'
                self.inc.t_exit_ok = self.w.now
            return True
        return False

    def on_create_begin(self, conf):
        """Disturbance timed relative to the end of module creation"""
        at = conf.get('at_create')
        if not at:
            return
        n = self.create_counts[conf['idx']] = self.create_counts.get(
            conf['idx'], 0) + 1
        if n != at['n'] or self.drv.healed:
            return
        inc = self.inc
        d = round((conf.get('create_delay') or 0) * 1e9) + at['dt'] * 1000
        self.w.after(d, self._at_create, inc, at['k'])

    def _at_create(self, inc, kind):
        if inc is not self.inc or not inc.alive or self.drv.healed:
            return
        self.w.faults[f'at_create_{kind}'] += 1
        if kind == 'stop':
            self.stop()
        elif inc.runs and inc.runs[-1].modules:
            m = inc.runs[-1].modules[0]
            inc.proc.call(m.external, kind)

    def check_modules_closed(self, inc, runs):
        """Modules live only while their engine does"""
        for run in runs:
            for m in run.modules:
                self.ctx.check(
                    ['C24', 'C26'], 'module-not-closed', m.is_closed,
                    lambda: f'{inc}: module {m.idx} of {run} is not closed '
                            f'with its engine')

    def on_module_create(self, m):
        inc = self.inc
        run = next((r for r in inc.runs if r.engine is m.engine), None)
        if run is None:
            self.check_modules_closed(inc, inc.runs)
            last = inc.runs[-1] if inc.runs else None
            self.ctx.check(
                'C26', 'two-engines', last is None or
                last.stopped is not None or not last.started,
                lambda: f'{inc}: engine created while previous one runs')
            run = self.new_run(inc)
            run.engine = m.engine
            if self.drv.on_engine_start:
                self.drv.on_engine_start(self, inc, run)
        run.modules.append(m)
        return run

    def _cur(self, m, what):
        cur = m.run.cur
        if not self.ctx.check('C09', 'no-session', cur is not None,
                              lambda: f'{what} outside of session'):
            return None
        return cur

    def on_session_start(self, m, session_id):
        run = m.run
        cur = run.cur
        if cur is None or cur.session_id != session_id:
            if not self.ctx.check('C09', 'overlap', cur is None,
                                  lambda: f'{run}: session {session_id} '
                                          f'starts before '
                                          f'{cur.session_id} is registered'):
                return
            cur = run.cur = Ctx(session_id)
        self.ctx.check('C09', 'start-twice', m.idx not in cur.started,
                       lambda: f'session {session_id} started twice on '
                               f'module {m.idx}')
        cur.started[m.idx] = True
        cur.active[m.idx] += 1

    def on_session_start_done(self, m, session_id):
        cur = m.run.cur
        if cur:
            cur.active[m.idx] -= 1

    def on_process(self, m, source, event):
        cur = self._cur(m, 'process')
        if not cur:
            return
        self.ctx.check('C09', 'process-order',
                       m.idx in cur.started and m.idx not in cur.stopped and
                       not cur.active[m.idx],
                       lambda: f'module {m.idx}: process out of sequence')
        self.ctx.check('C09', 'process-session',
                       event.id.session == cur.session_id,
                       lambda: f'event {event.id} processed in session '
                               f'{cur.session_id}')
        cur.active[m.idx] += 1
        cur.processed[m.idx].append((source, event))
        if (source.type == self.common.SourceType.EVENTER and
                (inc_id := (id(self.inc), cur.session_id)) not in self.listed):
            self.listed[inc_id] = source, dict(m.engine.get_client_names())
        if m.idx in self.raise_next:
            self.raise_next.discard(m.idx)
            self.w.faults['module_raise'] += 1
            if self.inc.exit_ok is None:
                self.inc.exit_ok = 'module raised'
                self.inc.t_exit_ok = self.w.now
            self.drv.expect_exit(self, self.inc)
            raise Exception('simulated module error')

    def on_process_done(self, m, source, event, result):
        cur = m.run.cur
        if not cur:
            return
        cur.active[m.idx] -= 1
        if result:
            cur.returns.append((m.idx, list(result)))

    def on_session_stop(self, m, session_id):
        cur = self._cur(m, 'session stop')
        if not cur:
            return
        self.ctx.check('C09', 'stop-order',
                       cur.session_id == session_id and
                       m.idx in cur.started and m.idx not in cur.stopped and
                       not cur.active[m.idx],
                       lambda: f'module {m.idx}: session stop out of '
                               f'sequence')
        cur.stopped[m.idx] = True
        cur.active[m.idx] += 1

    def on_session_stop_done(self, m, session_id):
        cur = m.run.cur
        if cur:
            cur.active[m.idx] -= 1

    def check_session(self, inc, run, s):
        """Session delivered to backend was processed to the fixpoint"""
        ctx = self.ctx
        mods = run.modules
        if not mods:
            return
        cur, run.cur = run.cur, None
        if not ctx.check('C09', 'not-processed', cur is not None and
                         cur.session_id == s.events[0].id.session,
                         lambda: f'{s} registered without processing'):
            return
        all_idx = {m.idx for m in mods}
        if not ctx.check('C09', 'incomplete',
                         set(cur.started) == all_idx and
                         set(cur.stopped) == all_idx and
                         not any(cur.active.values()),
                         lambda: f'{s} registered before processing ended'):
            return
        tail = [(idx, e) for idx, r in cur.returns for e in r]
        n = len(s.events) - len(tail)
        if not ctx.check('C09', 'missing-derived', n >= 1,
                         lambda: f'{s}: {len(tail)} derived events'):
            return
        for (idx, r), e in zip(tail, s.events[n:]):
            if not ctx.check('C09', 'derived',
                             (e.type, e.source_timestamp, e.payload) ==
                             (r.type, r.source_timestamp, r.payload),
                             lambda: f'{s}: derived event {e} expected '
                                     f'{r}'):
                return
        src = self.common.Source
        mod_type = self.common.SourceType.MODULE
        for m in mods:
            want = []
            for i, e in enumerate(s.events):
                if not any(self.drv.matches(e.type, q)
                           for q in m.conf['subs']):
                    continue
                want.append(e)
            got = [e for _, e in cur.processed[m.idx]]
            if not ctx.check('C09', 'processed', got == want,
                             lambda: f'{s}: module {m.idx} '
                                     f'({m.conf["subs"]}) processed '
                                     f'{[tuple(e.id) for e in got]}, expected '
                                     f'{[tuple(e.id) for e in want]}'):
                return
            pos = {e.id: i for i, e in enumerate(s.events)}
            for source, e in cur.processed[m.idx]:
                i = pos[e.id]
                if i < n:
                    continue
                ctx.check('C09', 'source',
                          source == src(mod_type, tail[i - n][0]),
                          lambda: f'{s}: source {source}')

    def derive(self, m, event):
        """Events produced by module for given event"""
        conf = m.conf
        data = getattr(event.payload, 'data', None)
        if isinstance(data, dict) and 'm' in data:
            fuel = data.get('f', 0)
        elif event.type and event.type[0] == 'event' and conf.get('sys'):
            fuel = 1
        else:
            fuel = 0
        if fuel <= 0:
            return []
        out = []
        rule = conf['rule']
        for i in range(rule['n']):
            t = rule['types'][(i + event.id.instance) % len(rule['types'])]
            out.append(self.drv.make_derived(self, m, t, fuel - 1))
        return out

    async def module_register(self, m, specs, fuel):
        drv = self.drv
        req = drv.make_req(('mod', self.name, m.idx, id(m)), specs, fuel)
        req.with_resp = True
        req.sent = drv.seq()
        req.t = self.w.now
        try:
            events = await m.engine.register(m.source, req.events)
        except asyncio.CancelledError:
            req.result = 'error'
            req.done = drv.seq()
            raise
        except Exception:
            req.result = 'error'
            req.done = drv.seq()
            return
        req.done = drv.seq()
        req.t_done = self.w.now
        drv.on_response(req, events, self)

    async def module_query(self, m):
        common = self.common
        try:
            await m.engine.query(common.QueryLatestParams())
        except common.BackendClosedError:
            pass

    def on_restart_request(self, m):
        inc = self.inc
        run = m.run
        self.w.faults['engine_restart'] += 1
        self.w.trace('restart', self.name)
        inc.after(self.drv.restart_bound, self.check_restarted, inc, run)

    def check_restarted(self, inc, run):
        if (inc is not self.inc or not inc.alive or inc.t_stop is not None or
                inc.exit_ok or self.frozen or inc.storage_failed):
            return
        if self.drv.restart_excused and self.drv.restart_excused(self, inc):
            return
        self.drv.probe('restart_checked')
        self.ctx.check(
            # engine closed while it is being created registers nothing
            'C26', 'restart', (run.stopped is not None or
                               run.started is None) and
            inc.runs[-1] is not run and any(
                r.started for r in inc.runs[run.n:]),
            lambda: f'{inc}: no fresh engine {self.drv.restart_bound} s '
                    f'after restart was requested')

    def on_module_self_close(self, m):
        self.w.faults['module_close'] += 1
        if self.inc.exit_ok is None:
            self.inc.exit_ok = 'module closed'
            self.inc.t_exit_ok = self.w.now
        self.drv.expect_exit(self, self.inc)

    def on_reset_ready_request(self, m):
        self.w.faults['reset_ready'] += 1
        if self.drv.on_reset_ready:
            self.drv.on_reset_ready(self, self.inc)

    # requests

    def link_request(self, inc, run, s):
        """Attribute session to its register request"""
        drv = self.drv
        ctx = self.ctx
        first = s.events[0]
        data = getattr(first.payload, 'data', None)
        if isinstance(data, dict) and 'm' in data:
            req = drv.marks.get(data['m'])
            if not ctx.check('C10', 'invented', req is not None,
                             lambda: f'{s}: unknown request '
                                     f'{first}'):
                return
            if not ctx.check('C10', 'twice', req.sess is None,
                             lambda: f'{req} registered as {req.sess} and '
                                     f'{s}'):
                return
            req.sess = s
            s.req = req
            n = len(req.events)
            got = [(e.type, e.source_timestamp, e.payload)
                   for e in s.events[:n]]
            want = [(e.type, e.source_timestamp, e.payload)
                    for e in req.events]
            if not ctx.check('C10', 'content', got == want,
                             lambda: f'{req} registered as {s}: {got} '
                                     f'expected {want}'):
                return
            ctx.check('C10', 'after-failure', req.result != 'failure',
                      lambda: f'{req} registered after failure response')
            conn = req.owner
            if isinstance(conn, Conn):
                # concurrent calls waiting for place in client's queue are
                # not ordered
                ctx.check('C10', 'order', req.order > conn.last_reg or
                          (drv.flood or drv.plan.get('queue')) and
                          req.sent < conn.last_reg_done,
                          lambda: f'{req} registered after '
                                  f'#{conn.last_reg}')
                conn.last_reg = max(conn.last_reg, req.order)
                conn.last_reg_done = max(conn.last_reg_done,
                                         req.done or 1 << 60)
                if conn.refused:
                    ctx.violate('C15', 'refused-registered', f'{req}')
                drv.on_conn_session(conn, s)
            rest = s.events[n:]
        elif first.type[:1] == ('event',):
            rest = s.events[1:]
            if (len(first.type) == 4 and first.type[2] == 'eventer' and
                    first.type[1] == str(self.sid)):
                drv.on_conn_event(self, inc, run, s, first)
            elif s.kind == 'STARTED':
                pass
            elif len(first.type) == 4 and first.type[2] == 'synced':
                drv.on_synced_event(self, inc, run, s, first)
            else:
                ctx.violate(['C08', 'C10'], 'invented', f'{first}')
        elif not first.type or first.type[0][:3] in ('poi', 'xxx'):
            return
        elif first.type == ('a', 'rogue'):
            ctx.violate('C15', 'refused-registered', f'{first}')
            return
        else:
            ctx.violate('C10', 'invented', f'{first}')
            return
        for e in rest:
            data = getattr(e.payload, 'data', None)
            mark = data.get('m') if isinstance(data, dict) else None
            if not ctx.check(['C09', 'C10'], 'derived-mark',
                             mark in drv.derived and
                             drv.derived[mark] is None,
                             lambda: f'{s}: unexpected event {e}'):
                return
            drv.derived[mark] = s


class Conn:
    """Established (or attempted) eventer connection"""

    def __init__(self, cl, name, spec):
        self.cl = cl
        self.name = name
        self.spec = spec
        self.subs = [tuple(i) for i in spec['subs']]
        self.server_id = spec.get('server_id')
        self.persisted = spec.get('persisted', False)
        self.token = spec.get('token')
        self.srv = None
        self.inc = None
        self.call_seq = None
        self.ret_seq = None
        self.t_call = None
        self.t_ret = None
        self.client = None
        self.status_hist = []
        self.initial = None         # status when connect returned
        self.notifs = []
        self.refused = False
        self.failed = False         # connect raised
        self.t_closed = None
        self.t_progress = None
        self.closed_by_us = False
        self.order = itertools.count(1)
        self.last_reg = 0
        self.last_reg_done = 0
        self.first_sess = None
        self.last_sess = None
        self.connected = []         # sessions with CONNECTED event
        self.disconnected = []
        self.inc_call = None
        self.pending = 0
        self.run_ret = None

    def __repr__(self):
        return f'{self.name}'

    @property
    def status(self):
        return self.status_hist[-1][2] if self.status_hist else None


LEGAL = {'STANDBY': ('STARTING', 'STOPPING'),
         'STARTING': ('OPERATIONAL', 'STOPPING'),
         'OPERATIONAL': ('STOPPING', ),
         'STOPPING': ('STANDBY', )}


class Cl:
    """Simulated client host"""

    def __init__(self, drv, spec, host):
        self.drv = drv
        self.w = drv.w
        self.ctx = drv.ctx
        self.spec = spec
        self.name = spec['name']
        self.node = self.w.add_node(self.name, host)
        self.conns = []
        self.conn = None
        self.proc = None
        self.n = 0
        self.stop = False
        self.ops_left = 0
        self.stall_end = 0

    def start(self):
        self.stop = False
        self.n += 1
        self.proc = self.node.spawn(f'c{self.n}')
        self.proc.start(self.main, self.proc)

    def crash(self, power, restart):
        if not self.proc or not self.proc.alive:
            return
        self.node.crash(power)
        for c in self.conns:
            if c.t_closed is None and not c.failed:
                c.t_closed = self.w.now
                c.crashed = True
        for op in list(self.drv.open_ops):
            if op['conn'].cl is self:
                self.drv.open_ops.remove(op)
        if self.conn:
            self.conn = None
        if restart is not None:
            self.w.after(ns(restart), self.start)

    async def main(self, proc):
        spec = self.spec
        while not self.stop:
            conn = await self.connect(proc)
            if conn is None:
                retry = spec.get('retry', 0.5)
                if self.conns[-1].refused:
                    retry *= 10
                await asyncio.sleep(retry)
                continue
            self.conn = conn
            await conn.client.wait_closing()
            await self.on_closed(conn)
            if self.conn is conn:
                self.conn = None
            if not spec.get('reconnect', True):
                return
            await asyncio.sleep(spec.get('retry', 0.5))

    async def on_closed(self, conn):
        if conn.t_closed is None:
            conn.t_closed = self.w.now
            self.w.trace('closed', conn.name)
            inc = conn.inc
            if (self.drv.strict_close and inc and inc.alive and
                    not conn.closed_by_us and not self.w.stopped and
                    inc.t_stop is None and not inc.exit_ok and
                    not inc.storage_failed):
                # requests end with connection error if engine is closed
                since = self.w.now - 3 * NS
                stopped = any(r.stopping or r.t_stopped is not None and
                              r.t_stopped >= since for r in inc.runs)
                busy = ((conn.t_progress or conn.t_ret) >= since or
                        any(op['conn'] is conn for op in self.drv.open_ops))
                self.ctx.check(
                    ['C12', 'C25'], 'closed-without-reason',
                    stopped and busy,
                    lambda: f'{conn}: connection closed itself')

    def target(self):
        return self.drv.servers[self.spec['server']]

    async def connect(self, proc):
        from hat.event import eventer
        from hat.drivers import tcp
        drv = self.drv
        spec = self.spec
        srv = self.target()
        conn = Conn(self, f'{self.name}-{len(self.conns)}', spec)
        if spec.get('same_name'):
            conn.name = self.name
        self.conns.append(conn)
        drv.conn_names.setdefault(conn.name, []).append(conn)
        conn.srv = srv
        conn.inc_call = srv.inc
        conn.call_seq = drv.seq()
        conn.t_call = self.w.now

        def on_status(client, status):
            self.on_status(conn, status)
            if spec.get('slow_cb'):
                return asyncio.sleep(spec['slow_cb'])

        def on_events(client, events):
            events = list(events)
            self.on_events(conn, events)
            if spec.get('slow_cb'):
                return asyncio.sleep(spec['slow_cb'])

        task = asyncio.ensure_future(eventer.connect(
            tcp.Address(srv.node.host, drv.port(srv)), conn.name,
            client_token=spec.get('token'),
            subscriptions=[tuple(i) for i in spec['subs']],
            server_id=spec.get('server_id'),
            persisted=spec.get('persisted', False),
            status_cb=on_status, events_cb=on_events))
        op = drv.open_op(conn, 'connect')
        try:
            done, _ = await asyncio.wait([task], timeout=drv.connect_bound)
            if not done:
                ctx_ok = srv.frozen
                if not ctx_ok:
                    self.ctx.violate('C12', 'connect-hangs',
                                     f'{conn}: connect is pending '
                                     f'{drv.connect_bound} s')
                task.cancel()
                await asyncio.wait([task])
                conn.failed = True
                return None
        finally:
            drv.close_op(op)
        conn.t_ret = self.w.now
        conn.ret_seq = drv.seq()
        e = task.exception()
        bad = spec.get('token') is not None and (
            spec['token'] != drv.server_token(srv))
        if e is None:
            self.ctx.check('C15', 'accepted', not bad,
                           lambda: f'{conn} with wrong token accepted')
            conn.client = task.result()
            conn.inc = srv.peer_inc(proc, drv.port(srv))
            conn.run_ret = (conn.inc.runs[-1] if conn.inc.runs else None)
            status = conn.client.status.name
            if conn.status_hist:
                # status changed before connect returned
                self.ctx.check('C13', 'status', conn.status == status,
                               lambda: f'{conn}: status {status}, notified '
                                       f'{conn.status}')
            else:
                conn.initial = status
                conn.status_hist.append((conn.ret_seq, self.w.now, status))
            self.w.trace('connected', conn.name, status)
            self.check_initial(conn, status)
            return conn
        conn.failed = True
        if isinstance(e, eventer.EventerInitError):
            conn.refused = True
            self.w.faults['refused'] += 1
            if bad:
                self.ctx.check('C15', 'refuse-bound', True)
            else:
                self.ctx.check(
                    'C15', 'refused-valid', drv.refusal_excused(conn),
                    lambda: f'{conn} with valid token refused: {e}')
        elif not isinstance(e, (ConnectionError, OSError)):
            self.ctx.check('C12', 'connect-error', drv.is_conn_error(e),
                           lambda: f'{conn}: connect raised {e!r}')
        return None

    # callbacks

    def check_initial(self, conn, status):
        pass

    def on_status(self, conn, status):
        status = status.name
        self.w.trace('status', conn.name, status)
        prev = conn.status
        hist = conn.status_hist
        hist.append((self.drv.seq(), self.w.now, status))
        if conn.refused:
            self.ctx.violate('C15', 'refused-status', f'{conn}')
        if prev is not None:
            self.ctx.check('C13', 'transition', status in LEGAL[prev],
                           lambda: f'{conn}: {prev} -> {status}')
        inc = conn.inc or conn.srv.peer_inc(self.proc, self.drv.port(conn.srv))
        if inc and not conn.srv.frozen:
            self.drv.check_status(conn, inc, status)
        if status == 'OPERATIONAL' and self.spec.get('eager') and (
                conn.client and not (self.drv.flood and
                                     not self.drv.plan.get('queue'))):
            # registration as soon as server accepts it
            req = self.drv.make_req(conn, [[['a', 'x'], None, None]], 0)
            self.proc.start(self.register, conn, req, True)

    def on_events(self, conn, events):
        self.w.trace('events', conn.name, len(events))
        conn.notifs.append((self.drv.seq(), self.w.now, events))
        if conn.refused:
            self.ctx.violate('C15', 'refused-events', f'{conn}')
        if not events:
            self.ctx.violate('C11', 'empty', f'{conn}: empty notification')

    # operations

    def op(self, op):
        """Execute operation of the plan (called by world)"""
        if not self.proc or not self.proc.alive:
            return
        conn = self.conn
        kind = op['k']
        if kind == 'reconnect':
            if conn:
                conn.closed_by_us = True
                self.proc.call(conn.client.close)
            return
        if conn is None:
            return
        self.proc.start(self.run_op, conn, op)

    async def run_op(self, conn, op):
        drv = self.drv
        kind = op['k']
        if kind == 'reg':
            for _ in range(op.get('rep', 1)):
                req = drv.make_req(conn, op['events'], op.get('fuel', 0))
                await self.register(conn, req, op.get('resp', False))
        elif kind == 'aclose':
            conn.closed_by_us = True
            await conn.client.async_close()
        elif kind == 'query':
            await self.query(conn, op)
        else:
            raise core.HarnessError(f'op {op}')

    async def register(self, conn, req, with_resp):
        drv = self.drv
        req.with_resp = with_resp
        req.sent = drv.seq()
        req.t = self.w.now
        req.order = next(conn.order)
        req.status = conn.status
        h = len(conn.status_hist)
        run = drv.open_run(conn)
        op = drv.open_op(conn, 'register', req)
        try:
            events = await conn.client.register(req.events, with_resp)
        except Exception as e:
            req.result = 'error'
            self.ctx.check('C12', 'register-error', drv.is_conn_error(e),
                           lambda: f'{req}: {e!r}')
            return
        finally:
            req.done = drv.seq()
            req.t_done = self.w.now
            drv.close_op(op)
        if not with_resp:
            req.result = 'sent'
            return
        self.w.trace('resp', conn.name, req.order,
                     None if events is None else len(events))
        drv.on_response(req, events, conn.srv)
        # server which can not send status to one client notifies others later
        if events is None and req.status == 'OPERATIONAL' and (
                len(conn.status_hist) == h) and (
                not (drv.flood or drv.plan.get('queue')) or
                run is not None and drv.open_run(conn) is run):
            self.ctx.violate(
                'C13', 'operational-refuses',
                f'{req} failed although status is OPERATIONAL')

    async def query(self, conn, op):
        drv = self.drv
        params = drv.query_params(op)
        o = drv.open_op(conn, 'query', op)
        seq = drv.seq()
        inc = conn.inc
        must = drv.query_must(conn, inc)
        try:
            result = await conn.client.query(params)
        except Exception as e:
            self.ctx.check('C12', 'query-error', drv.is_conn_error(e),
                           lambda: f'{params}: {e!r}')
            return
        finally:
            drv.close_op(o)
        drv.check_query(conn, inc, op, params, must, result, seq)


class System:
    """Base of scenarios with event servers"""

    exit_props = ['C25', 'C26']
    stop_bound = 60
    restart_bound = 60
    connect_bound = 300
    op_bound = 120
    skip_stopped = False
    flood = False
    strict_close = False        # nothing disturbs connections
    healed = False
    after_open = None
    on_remote_session = None
    on_announced = None
    on_reset_ready = None
    may_lose_blessing = False
    on_engine_start = None
    restart_excused = None

    def __init__(self, world, plan, ctx):
        from hat.event import common
        self.common = common
        self.w = world
        self.plan = plan
        self.ctx = ctx
        world.driver = self
        self.servers = {}
        self.clients = {}
        self.conn_names = {}
        self._seq = itertools.count(1)
        self._marks = itertools.count(1)
        self.marks = {}
        self.derived = {}
        self.reqs = []
        self.open_ops = []
        self.server_ids = []

    def seq(self):
        return next(self._seq)

    def probe(self, name):
        self.w.probes[name] += 1

    @staticmethod
    def matches(event_type, query_type):
        from . import model
        return model.type_matches(event_type, tuple(query_type))

    def is_conn_error(self, e):
        from hat import aio
        return isinstance(e, (ConnectionError, aio.QueueClosedError,
                              aio.group.GroupClosedError))

    # operations in progress

    def open_op(self, conn, kind, what=None):
        op = {'conn': conn, 'kind': kind, 't': self.w.now, 'what': what}
        self.open_ops.append(op)
        return op

    def close_op(self, op):
        if op in self.open_ops:
            op['conn'].t_progress = self.w.now
            self.open_ops.remove(op)
        conn = op['conn']
        if conn.t_closed is not None and not self.w.stopped:
            self.ctx.check(
                'C12', 'late-error',
                self.w.now <= max(conn.t_closed, op['t']) + self.grace,
                lambda: f'{conn}: {op["kind"]} ended '
                        f'{(self.w.now - conn.t_closed) / NS:.1f} s after '
                        f'connection was closed')

    grace = 20 * NS

    # plan helpers

    def make_src(self, spec):
        if spec is None:
            return None
        return self.common.Timestamp(spec[0], spec[1])

    def make_req(self, owner, specs, fuel):
        common = self.common
        events = []
        marks = []
        for t, src, extra in specs:
            m = next(self._marks)
            marks.append(m)
            events.append(common.RegisterEvent(
                type=tuple(t), source_timestamp=self.make_src(src),
                payload=common.EventPayloadJson(
                    {'m': m, 'f': fuel, **(extra or {})})))
        req = Req(owner, 0, events, marks)
        for m in marks:
            self.marks[m] = req
        self.reqs.append(req)
        return req

    def make_derived(self, srv, m, t, fuel):
        common = self.common
        mark = next(self._marks)
        self.derived[mark] = None
        return common.RegisterEvent(
            type=tuple(t), source_timestamp=None,
            payload=common.EventPayloadJson({'m': mark, 'f': fuel}))

    def on_response(self, req, events, srv):
        ctx = self.ctx
        if events is None:
            req.result = 'failure'
            ctx.check('C10', 'failure-registered', req.sess is None,
                      lambda: f'{req}: failure response, registered as '
                              f'{req.sess}')
            return
        req.result = 'ok'
        events = list(events)
        req.result_events = events
        if not ctx.check(['C10', 'C12'], 'response-session',
                         req.sess is not None,
                         lambda: f'{req}: success response without '
                                 f'registration'):
            return
        inc = getattr(req.owner, 'inc', None)
        listed = inc and srv.listed.get((id(inc), req.sess.events[0].id.session))
        if listed:
            source, names = listed
            self.probe('client_names')
            ctx.check('C14', 'client-names',
                      names.get(source) == req.owner.name,
                      lambda: f'{req}: connected client {req.owner} is '
                              f'registering as {source}, listed {names}')
        want = req.sess.events[:len(req.events)]
        ctx.check(['C10', 'C12'], 'response-content', events == want,
                  lambda: f'{req}: response {events}, registered {want}')

    def on_conn_session(self, conn, s):
        if conn.first_sess is None:
            conn.first_sess = s
        conn.last_sess = s

    def on_conn_event(self, srv, inc, run, s, event):
        ctx = self.ctx
        name = event.type[3]
        kind = getattr(event.payload, 'data', None)
        if not ctx.check('C14', 'payload', kind in ('CONNECTED',
                                                    'DISCONNECTED'),
                         lambda: f'{event}'):
            return
        conns = self.conn_names.get(name)
        if name in self.rogue_names:
            return
        if not ctx.check('C14', 'unknown-name', conns,
                         lambda: f'event of unknown client {name}'):
            return
        conn = conns[-1]
        if len(conns) > 1:
            return
        ctx.check(['C14', 'C15'], 'refused-event', not conn.refused or
                  conn.token is None or
                  conn.token == self.server_token(srv),
                  lambda: f'refused connection {name}: {kind}')
        if kind == 'CONNECTED':
            ctx.check('C14', 'connected-twice', not conn.connected,
                      lambda: f'{name} connected twice')
            ctx.check('C14', 'connected-late', conn.first_sess is None and
                      not conn.disconnected,
                      lambda: f'{name}: CONNECTED after '
                              f'{conn.first_sess} {conn.disconnected}')
            conn.connected.append(s)
        else:
            ctx.check('C14', 'disconnected-twice', not conn.disconnected,
                      lambda: f'{name} disconnected twice')
            ctx.check('C14', 'disconnected-open', conn.t_closed is not None or
                      conn.failed or conn.client is None or
                      self.server_may_close(conn),
                      lambda: f'{name}: DISCONNECTED while open')
            conn.disconnected.append(s)

    rogue_names = frozenset()

    def server_may_close(self, conn):
        """Server can notice closing before the client"""
        return True

    def on_synced_event(self, srv, inc, run, s, event):
        self.ctx.violate(['C10', 'C21'], 'invented', f'{event}')

    # statuses

    def check_status(self, conn, inc, status):
        hist = [i[2] for i in conn.status_hist]
        if status == 'OPERATIONAL':
            n = sum(1 for i in hist if i == 'OPERATIONAL')
            if inc.srv.conf['modules']:
                full = sum(1 for r in inc.runs if len(r.modules) ==
                           len(inc.srv.conf['modules']))
                self.ctx.check('C13', 'operational-early', n <= full,
                               lambda: f'{conn}: OPERATIONAL without engine')
        elif status == 'STANDBY' and not inc.storage_failed:
            n = 0
            for a, b in zip(hist, hist[1:]):
                if b == 'STANDBY':
                    n += 1
            # every standby after operational follows persisted STOPPED
            if 'OPERATIONAL' in hist:
                done = sum(1 for r in inc.runs
                           if r.stopped and r.stopped.pers_ann is not None)
                m = 0
                oper = False
                for h in hist:
                    if h == 'OPERATIONAL':
                        oper = True
                    elif h == 'STANDBY' and oper:
                        m += 1
                        oper = False
                self.ctx.check(
                    ['C13', 'C20'], 'standby-early', m <= done,
                    lambda: f'{conn}: STANDBY before STOPPED is persisted')

    def refusal_excused(self, conn):
        """Refusing is legitimate when engine stops during connecting"""
        inc = conn.inc_call
        if inc is None or inc is not conn.srv.inc or not inc.alive:
            return True
        if inc.t_stop is not None or inc.exit_ok or inc.storage_failed:
            return True
        for r in inc.runs:
            if r.t_stopped is not None and r.t_stopped >= conn.t_call - NS:
                return True
            if r.stopping:
                return True
        return False

    def open_run(self, conn):
        inc = conn.inc
        run = inc.runs[-1] if inc and inc.alive and inc.runs else None
        if run and run.engine and run.engine.is_open and run.stopped is None:
            return run

    def expect_exit(self, srv, inc):
        """Server has to close because its module closed/failed"""
        runs = len(inc.runs)

        def check():
            if self.may_lose_blessing and (len(inc.runs) > runs or (
                    inc.runs and inc.runs[-1].engine.is_closed)):
                # engine was closed because server lost its blessing at the
                # same time
                return
            self.ctx.check('C26', 'no-exit', not inc.alive or srv.frozen,
                           lambda: f'{inc} did not close after its module '
                                   f'closed or failed ({inc.exit_ok})')
        inc.after(self.stop_bound, check)

    # queries

    def query_params(self, op):
        c = self.common
        q = op['q']
        if q == 'latest':
            return c.QueryLatestParams(
                event_types=None if op.get('types') is None else
                [tuple(i) for i in op['types']])
        if q == 'server':
            return c.QueryServerParams(
                server_id=op['server'], persisted=op.get('persisted', False),
                max_results=op.get('max'))
        return c.QueryTimeseriesParams(
            event_types=None if op.get('types') is None else
            [tuple(i) for i in op['types']],
            order=c.Order[op.get('order', 'DESCENDING')],
            max_results=op.get('max'))

    def query_must(self, conn, inc):
        if inc is None or not inc.alive:
            return None
        return (len(inc.sessions), [s for s in inc.sessions
                                    if s.done is not None or s.inc is not inc])

    def check_query(self, conn, inc, op, params, must, result, seq):
        """Answer belongs to this query and reflects completed sessions"""
        ctx = self.ctx
        c = self.common
        events = list(result.events)
        if must is None:
            return
        maybe = inc.sessions
        known = {e.id: e for s in maybe for e in s.events}
        for e in events:
            if not ctx.check('C12', 'query-unknown', known.get(e.id) == e,
                             lambda: f'{conn}: query returned unknown {e}'):
                return
        types = (None if op.get('types') is None else
                 [tuple(i) for i in op['types']])

        def match(e):
            return types is None or any(self.matches(e.type, q)
                                        for q in types)

        must_events = [e for s in must[1] for e in s.events]
        if op['q'] == 'server':
            ok = (all(e.id.server == params.server_id for e in events) and
                  [e.id for e in events] == sorted(e.id for e in events) and
                  (params.max_results is None or
                   len(events) <= params.max_results))
            ctx.check('C12', 'answer', ok,
                      lambda: f'{conn}: {params} answered with {events[:5]}')
            if not params.persisted:
                want = sorted(e.id for e in must_events
                              if e.id.server == params.server_id)
                if params.max_results is not None:
                    want = want[:params.max_results]
                else:
                    want = want[:len(events)] if result.more_follows else want
                got = {e.id for e in events}
                ctx.check('C12', 'answer-missing',
                          all(i in got for i in want),
                          lambda: f'{conn}: {params}: missing '
                                  f'{[i for i in want if i not in got][:5]}')
            return
        if op['q'] == 'latest':
            ok = (all(match(e) for e in events) and
                  len({e.type for e in events}) == len(events))
            if not ctx.check('C12', 'answer', ok,
                             lambda: f'{conn}: {params} answered with '
                                     f'{events[:5]}'):
                return
            got = {e.type: e for e in events}
            for e in must_events:
                if not match(e):
                    continue
                g = got.get(e.type)
                if not ctx.check(
                        'C12', 'answer-stale', g is not None and
                        (g.timestamp, g.id) >= (e.timestamp, e.id) or
                        (g is not None and g.id.server != e.id.server),
                        lambda: f'{conn}: {params}: {g} instead of {e}'):
                    return
            return
        ok = (all(match(e) for e in events) and
              (params.max_results is None or
               len(events) <= params.max_results))
        ts = [e.timestamp for e in events]
        want = sorted(ts, reverse=params.order == c.Order.DESCENDING)
        ctx.check('C12', 'answer', ok and ts == want,
                  lambda: f'{conn}: {params} answered with {events[:5]}')
        limit = params.max_results
        if limit is None or len(events) < limit:
            got = {e.id for e in events}
            if not result.more_follows:
                for e in must_events:
                    if match(e) and not ctx.check(
                            'C12', 'answer-missing', e.id in got,
                            lambda: f'{conn}: {params}: missing {e}'):
                        return

    # notifications

    def expected_notifs(self, conn, inc):
        out = []
        for seq, events in inc.anns[conn.persisted]:
            sel = [e for e in events
                   if any(self.matches(e.type, q) for q in conn.subs) and
                   (conn.server_id is None or
                    conn.server_id == e.id.server)]
            if sel:
                out.append((seq, sel))
        return out

    def check_notifs(self, conn, final=False):
        """Notifications are a contiguous part of announced sessions"""
        ctx = self.ctx
        if conn.client is None and not conn.notifs:
            return
        incs = [i for i in conn.srv.incs if i.n >= (conn.inc_call.n if
                                                    conn.inc_call else 0) and
                (conn.inc is None or i.n <= conn.inc.n)]
        got = [n[2] for n in conn.notifs]
        best = None
        for inc in incs or [conn.inc]:
            if inc is None:
                continue
            exp = self.expected_notifs(conn, inc)
            # slow clients can have a backlog
            slow = conn.spec.get('slow_cb') and len(exp) > 100
            bad = self._match(conn, got, exp, final and not slow and
                              conn.t_closed is None)
            if bad is None:
                best = None
                break
            best = bad
        ctx.check('C11', 'notifications', best is None,
                  lambda: f'{conn} (subs {conn.subs} server '
                          f'{conn.server_id} persisted {conn.persisted}): '
                          f'{best}')

    def _match(self, conn, got, exp, complete):
        ret = conn.ret_seq if conn.ret_seq is not None else 1 << 60
        lo = 0
        while lo < len(exp) and exp[lo][0] < conn.call_seq:
            lo += 1
        hi = lo
        while hi < len(exp) and exp[hi][0] < ret:
            hi += 1
        reason = None
        for start in range(lo, hi + 1):
            part = [e for _, e in exp[start:start + len(got)]]
            if part == got:
                if complete and start + len(got) != len(exp):
                    reason = (f'{len(exp) - start - len(got)} of '
                              f'{len(exp) - start} notifications missing: '
                              f'{[tuple(e.id) for e in exp[start + len(got)][1]][:4]}')
                    continue
                return None
            k = next((k for k, (a, b) in enumerate(
                itertools.zip_longest(got, part)) if a != b), None)
            a = got[k] if k < len(got) else None
            b = part[k] if k < len(part) else None
            reason = (f'notification {k}: got '
                      f'{None if a is None else [tuple(e.id) for e in a][:6]}'
                      f', expected '
                      f'{None if b is None else [tuple(e.id) for e in b][:6]}')
        return reason

    # connection events

    def check_conn_events(self, conn, bound):
        """CONNECTED/DISCONNECTED events of finished runs"""
        ctx = self.ctx
        if conn.client is None:
            return
        inc = conn.inc
        if inc is not conn.inc_call or inc is None:
            return
        # closed engine is noticed (status changed) a bit later
        if inc.storage_failed or any(
                r.t_stopped is not None and
                conn.t_call - NS <= r.t_stopped <= (conn.t_ret or self.w.now)
                for r in inc.runs):
            return
        if conn.initial == 'OPERATIONAL':
            ctx.check('C14', 'connected-missing', len(conn.connected) == 1,
                      lambda: f'{conn}: {len(conn.connected)} CONNECTED '
                              f'events')

    def check_disconnected(self, conn, bound):
        ctx = self.ctx
        if not conn.connected:
            return
        s = conn.connected[0]
        run = s.run
        inc = run.inc
        end = run.t_stopped
        if end is None:
            end = inc.t_exit if inc.t_exit is not None else self.w.now
        for t in (inc.t_stop, inc.t_exit_ok):
            if t is not None:
                end = min(end, t)
        t_closed = conn.t_closed
        if t_closed is None and conn.failed:
            t_closed = conn.t_ret if conn.t_ret is not None else (
                conn.t_call + 120 * NS)
        if t_closed is None or t_closed + bound > end:
            return
        if inc.storage_failed:
            return
        ctx.check('C14', 'disconnected-missing', len(conn.disconnected) == 1,
                  lambda: f'{conn}: {len(conn.disconnected)} DISCONNECTED '
                          f'events')
        if conn.disconnected and conn.last_sess:
            ctx.check('C14', 'disconnected-order',
                      conn.disconnected[0].idx > conn.last_sess.idx,
                      lambda: f'{conn}: session {conn.last_sess} after '
                              f'DISCONNECTED')
