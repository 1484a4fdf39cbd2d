"""Backend wrapper and engine module of servers used by manager scenario"""

import asyncio
import importlib

from hat import aio

from hat.event import common

from . import core


async def create(conf, registered_cb, persisted_cb):
    drv = core.world.driver
    inc = conf['inc']

    async def on_events(cb, persisted, events):
        drv.on_events(inc, persisted, events)
        if cb:
            await aio.call(cb, events)

    info = importlib.import_module(conf['real']['module']).info
    real = await aio.call(
        info.create, conf['real'],
        lambda events: on_events(registered_cb, False, events),
        lambda events: on_events(persisted_cb, True, events))
    return Backend(drv, real, conf)


info = common.BackendInfo(create=create)


class Backend(common.Backend):

    def __init__(self, drv, real, conf):
        self._drv = drv
        self._real = real
        self._delay = conf['delay']
        self._rng = core.world.rng('mgr-backend')
        drv.backend = self

    @property
    def async_group(self):
        return self._real.async_group

    async def get_last_event_id(self, server_id):
        return await self._real.get_last_event_id(server_id)

    async def register(self, events):
        return await self._real.register(events)

    async def query(self, params):
        if self._delay:
            await asyncio.sleep(self._delay * self._rng.random())
        result = await self._real.query(params)
        self._drv.on_query(params, result)
        return result

    async def flush(self):
        await self._real.flush()


class EngineModule:
    """Namespace of engine module"""

    @staticmethod
    async def create(conf, engine, source):
        if conf['create_delay']:
            await asyncio.sleep(conf['create_delay'])
        return Module(conf, engine, source)


class Module(common.Module):

    def __init__(self, conf, engine, source):
        self._conf = conf
        self._subscription = common.create_subscription([('*', )])
        self._async_group = aio.Group(log_exceptions=False)
        core.world.driver.module = self
        self.engine = engine

    @property
    def async_group(self):
        return self._async_group

    @property
    def subscription(self):
        return self._subscription

    async def on_session_start(self, session_id):
        pass

    async def on_session_stop(self, session_id):
        pass

    async def process(self, source, event):
        if self._conf['delay']:
            await asyncio.sleep(self._conf['delay'])
        if (event.type[0] == 'cmd' and self._conf['derive'] and
                len(event.type) > 2):
            yield_type = ('derived', *event.type[1:])
            return [common.RegisterEvent(type=yield_type,
                                         source_timestamp=None,
                                         payload=None)]
