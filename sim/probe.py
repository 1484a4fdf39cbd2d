"""Backend wrapper recording traffic between the server and real backend."""

import asyncio
import importlib

from hat import aio

from hat.event import common

from . import core


async def create(conf, registered_events_cb, flushed_events_cb):
    srv = core.world.driver.servers[conf['srv']]
    inc = srv.inc

    rng = core.world.rng(f'probe/{srv.name}')
    reg_delay = conf.get('reg_delay')

    async def on_registered(events):
        # consumers of registered events can be slow
        delay = bool(reg_delay) and rng.random() < reg_delay[2]
        try:
            if delay:
                await asyncio.sleep(reg_delay[0] * rng.random())
        finally:
            srv.on_announce(inc, False, events)
        if registered_events_cb:
            await aio.call(registered_events_cb, events)
        if delay:
            await asyncio.sleep(reg_delay[1] * rng.random())

    async def on_flushed(events):
        srv.on_announce(inc, True, events)
        if flushed_events_cb:
            await aio.call(flushed_events_cb, events)

    info = importlib.import_module(conf['real']['module']).info
    real = await aio.call(info.create, conf['real'], on_registered,
                          on_flushed)
    backend = ProbeBackend(srv, inc, real, conf)
    try:
        await srv.on_backend_open(inc, real)
    except BaseException:
        await aio.uncancellable(real.async_close())
        raise
    return backend


info = common.BackendInfo(create=create)


class ProbeBackend(common.Backend):

    def __init__(self, srv, inc, real, conf):
        self._page = conf.get('page')
        self._qdelay = conf.get('qdelay')
        self._rng = core.world.rng(f'query/{srv.name}')
        self._srv = srv
        self._inc = inc
        self._real = real

    @property
    def async_group(self):
        return self._real.async_group

    async def get_last_event_id(self, server_id):
        return await self._real.get_last_event_id(server_id)

    async def register(self, events):
        if not self._real.is_open:
            return await self._real.register(events)
        s = self._srv.on_register_call(self._inc, events)
        try:
            result = await self._real.register(events)
        except BaseException as e:
            self._srv.on_register_done(self._inc, s, e)
            raise
        self._srv.on_register_done(self._inc, s, None)
        return result

    async def query(self, params):
        if (self._page and isinstance(params, common.QueryServerParams) and
                params.max_results is None):
            # backend with low limit of results
            params = params._replace(max_results=self._page)
        if self._qdelay and self._rng.random() < 0.3:
            await asyncio.sleep(self._qdelay * self._rng.random())
        return await self._real.query(params)

    async def flush(self):
        await self._real.flush()
