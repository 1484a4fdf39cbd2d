"""Engine module of `soak` scenario - it keeps no history."""

from hat import aio

from hat.event import common

from . import core


async def create(conf, engine, source):
    return SoakModule(conf, engine, source)


info = common.ModuleInfo(create=create)


class SoakModule(common.Module):

    def __init__(self, conf, engine, source):
        self.engine = engine
        self.source = source
        self._subscription = common.create_subscription([('soak', '*'),
                                                         ('event', '*')])
        self._async_group = aio.Group(log_exceptions=False)
        core.world.driver.on_module(conf['srv'], self)

    @property
    def async_group(self):
        return self._async_group

    @property
    def subscription(self):
        return self._subscription

    async def on_session_start(self, session_id):
        pass

    async def on_session_stop(self, session_id):
        pass

    def process(self, source, event):
        if event.type[0] != 'soak':
            return
        k = event.type[1]
        if k == 'derive':
            return [self._event('derived')]
        if k == 'restart':
            self.engine.restart()
        elif k == 'reset':
            self.engine.reset_monitor_ready()
        elif k == 'register':
            self._async_group.spawn(self._register)
        elif k == 'query':
            self._async_group.spawn(self._query)

    def _event(self, k):
        return common.RegisterEvent(type=('soak', k), source_timestamp=None,
                                    payload=None)

    async def _register(self):
        await core.guard(self.engine.register(self.source,
                                              [self._event('own')]))

    async def _query(self):
        await core.guard(self.engine.query(common.QueryLatestParams()))
