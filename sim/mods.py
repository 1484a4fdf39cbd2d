"""Engine module used by simulated event servers.

Behaviour is given by its configuration (part of the plan); everything it sees
is reported to the recorder of its server (`sim.evsys.Server`).
"""

import asyncio

from hat import aio

from hat.event import common

from . import core


async def create(conf, engine, source):
    srv = core.world.driver.servers[conf['srv']]
    srv.on_create_begin(conf)
    if conf.get('create_delay'):
        await asyncio.sleep(conf['create_delay'])
    if srv.create_fails(conf):
        raise Exception('module creation failed (simulated)')
    return RecModule(srv, conf, engine, source)


info = common.ModuleInfo(create=create)


class RecModule(common.Module):

    def __init__(self, srv, conf, engine, source):
        self.srv = srv
        self.conf = conf
        self.engine = engine
        self.source = source
        self.idx = conf['idx']
        self.rng = core.world.rng(f'mod/{srv.name}/{conf["idx"]}')
        self._subscription = common.create_subscription(
            [tuple(i) for i in conf['subs']])
        self._async_group = aio.Group(log_exceptions=False)
        self.run = srv.on_module_create(self)
        mode = conf['mode']
        if mode == 'sync':
            self.on_session_start = self._start
            self.process = self._process
            self.on_session_stop = self._stop
        else:
            self.on_session_start = self._a_start
            self.process = self._a_process
            self.on_session_stop = self._a_stop
        for i, bg in enumerate(conf.get('bg', [])):
            if bg.get('once'):
                if (self.idx, i) in srv.bg_done:
                    continue
                srv.bg_done.add((self.idx, i))
            self._async_group.spawn(self._bg, bg)
        if conf.get('close_delay'):
            self._async_group.spawn(aio.call_on_cancel, asyncio.sleep,
                                    conf['close_delay'])

    @property
    def async_group(self):
        return self._async_group

    @property
    def subscription(self):
        return self._subscription

    # overridden per instance

    async def process(self, source, event):
        raise NotImplementedError()

    async def _delay(self):
        d = self.conf.get('delay', 0)
        x = self.rng.random()
        if not d or x < 0.5:
            if x < 0.25:
                await asyncio.sleep(0)
            return
        await asyncio.sleep(d * (x - 0.5) ** 2 * 4)

    def _start(self, session_id):
        self.srv.on_session_start(self, session_id)
        self.srv.on_session_start_done(self, session_id)

    async def _a_start(self, session_id):
        self.srv.on_session_start(self, session_id)
        await self._delay()
        self.srv.on_session_start_done(self, session_id)

    def _restart_at(self):
        # restart requested while session is being processed
        n = self.srv.session_counts[self.idx] = self.srv.session_counts.get(
            self.idx, 0) + 1
        if (n in self.conf.get('restart_at', ()) and
                not self.srv.drv.healed):
            self.srv.on_restart_request(self)
            self.engine.restart()

    def _stop(self, session_id):
        self._restart_at()
        self.srv.on_session_stop(self, session_id)
        self.srv.on_session_stop_done(self, session_id)

    async def _a_stop(self, session_id):
        self._restart_at()
        self.srv.on_session_stop(self, session_id)
        await self._delay()
        self.srv.on_session_stop_done(self, session_id)

    def _process(self, source, event):
        self.srv.on_process(self, source, event)
        result = self.srv.derive(self, event)
        self.srv.on_process_done(self, source, event, result)
        return self._wrap(result)

    async def _a_process(self, source, event):
        self.srv.on_process(self, source, event)
        if 'synced' in event.type and self.conf.get('sync_delay'):
            self.srv.drv.on_sync_delay(self.srv)
            await asyncio.sleep(self.conf['sync_delay'])
        await self._delay()
        result = self.srv.derive(self, event)
        self.srv.on_process_done(self, source, event, result)
        return self._wrap(result)

    def _wrap(self, result):
        if not result:
            return self.conf.get('empty', None) and []
        kind = self.conf.get('ret', 'list')
        if kind == 'gen':
            return (i for i in result)
        if kind == 'tuple':
            return tuple(result)
        return list(result)

    def external(self, kind):
        if not self.is_open:
            return
        if kind == 'close':
            self.srv.on_module_self_close(self)
            self.close()
        elif kind == 'restart':
            self.srv.on_restart_request(self)
            self.engine.restart()

    async def _bg(self, bg):
        await asyncio.sleep(bg['t'])
        kind = bg['k']
        if kind not in ('reg', 'query') and self.srv.drv.healed:
            return
        if kind == 'reg':
            for _ in range(bg.get('rep', 1)):
                await core.guard(self.srv.module_register(
                    self, bg['events'], bg.get('fuel', 0)))
                if bg.get('gap'):
                    await asyncio.sleep(bg['gap'])
        elif kind == 'restart':
            self.srv.on_restart_request(self)
            self.engine.restart()
        elif kind == 'close':
            self.srv.on_module_self_close(self)
            self.close()
        elif kind == 'raise':
            self.srv.raise_next.add(self.idx)
        elif kind == 'reset_ready':
            self.srv.on_reset_ready_request(self)
            self.engine.reset_monitor_ready()
        elif kind == 'query':
            await core.guard(self.srv.module_query(self))
        else:
            raise core.HarnessError(f'bg {bg}')
