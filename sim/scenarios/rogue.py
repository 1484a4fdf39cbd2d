"""Misbehaving eventer clients."""

import asyncio

from .. import core
from ..core import NS, ns
from ..evsys import pick


MSGS = ['HatEventer.MsgRegisterReq', 'HatEventer.MsgQueryReq',
        'HatEventer.MsgEventsAck', 'HatEventer.MsgInitReq',
        'HatEventer.MsgStatusNotify', 'HatEventer.MsgEventsNotify',
        'HatEventer.MsgRegisterRes', 'HatEventer.MsgInitRes',
        'HatEventer.MsgQueryRes', 'HatEventer.Nothing', 'HatAdminer.X',
        'Bad', '', 'HatChatter.Ping', 'HatChatter.Pong']


def gen_chunk(rng):
    n = pick(rng, [1, 2, 5, 30, 300])
    kind = rng.random()
    if kind < 0.4:
        return bytes(int(rng.random() * 256) for _ in range(n)).hex()
    if kind < 0.7:
        # plausible frame header
        return bytes([1, min(n, 255)] + [int(rng.random() * 256)
                                         for _ in range(n)]).hex()
    if kind < 0.85:
        return bytes([0]).hex()
    return bytes([pick(rng, [8, 255])] + [255] * 8).hex()


def gen(rng):
    kind = pick(rng, ['bytes', 'chat', 'chat', 'token', 'token', 'poison',
                      'poison', 'halfopen', 'noread', 'late'])
    r = {'kind': kind, 'init': rng.random() < 0.6,
         'end': pick(rng, ['close', 'abort', 'hold', 'kill'])}
    if kind == 'bytes':
        r['chunks'] = [gen_chunk(rng) for _ in range(pick(rng, [1, 2, 4]))]
    elif kind == 'chat':
        r['msgs'] = [[pick(rng, MSGS),
                      pick(rng, ['', gen_chunk(rng)]),
                      rng.random() < 0.5]
                     for _ in range(pick(rng, [1, 2, 5]))]
    elif kind == 'token':
        r['token'] = pick(rng, ['wrong', '', 'goo', 'GOOD', 'good '])
        r['wait'] = rng.random() < 0.4
    elif kind == 'poison':
        r['what'] = pick(rng, POISON)
        r['depth'] = pick(rng, [500, 900, 3000, 9900, 10000, 100000])
    elif kind == 'noread':
        r['n'] = pick(rng, [5, 50])
    return r


POISON = ['src_s_big', 'src_s_neg', 'src_us_big', 'src_us_neg', 'json_inf',
          'json_nan', 'json_nan_key', 'src_s_max', 'src_s_min', 'json_deep', 'json_bad', 'surrogate', 'type_empty',
          'type_star', 'query_big', 'query_neg', 'query_id', 'huge_type',
          'many_events', 'empty_register', 'src_us_1e6', 'bin_type']


class Rogue:

    def __init__(self, drv, spec):
        self.drv = drv
        self.w = drv.w
        self.ctx = drv.ctx
        self.spec = spec
        self.proc = drv.rogue_node.spawn('r')
        self.conn = None
        self.done = False

    def start(self):
        self.w.faults[f'rogue_{self.spec["kind"]}'] += 1
        if self.spec['kind'] == 'poison':
            self.w.faults[f'poison_{self.spec["what"]}'] += 1
        self.proc.start(self.main)

    async def main(self):
        from hat import aio
        try:
            await getattr(self, 'do_' + self.spec['kind'])()
        except (ConnectionError, OSError, aio.QueueClosedError):
            pass
        self.done = True

    async def finish(self, conn):
        end = self.spec['end']
        if end == 'close':
            await conn.async_close()
        elif end == 'abort':
            raw = getattr(conn, '_conn', conn)
            transport = raw._protocol._transport
            if transport:
                transport.abort()
        elif end == 'kill':
            self.proc.kill()
            await asyncio.sleep(1)

    def addr(self):
        from hat.drivers import tcp
        srv = self.drv.srv
        return tcp.Address(srv.node.host, self.drv.port(srv))

    async def chatter(self):
        from hat.drivers import chatter
        return await chatter.connect(self.addr())

    async def send(self, conn, msg_type, data, last=True):
        from hat.drivers import chatter
        from hat.sbs import serializer
        from hat.event.eventer import common
        # python serializer has no limits on the size of integers
        msg = common.sbs_repo.encode(msg_type, data,
                                     serializer=serializer.PySerializer)
        return await conn.send(chatter.Data(msg_type, msg), last=last)

    async def init(self, conn, token=None, name='rogue'):
        await self.send(conn, 'HatEventer.MsgInitReq',
                        {'clientName': name,
                         'clientToken': (('value', token) if token is not None
                                         else ('none', None)),
                         'subscriptions': [['*']],
                         'serverId': ('none', None),
                         'persisted': False}, last=False)

    async def do_bytes(self):
        from hat.drivers import tcp
        conn = await tcp.connect(self.addr())
        for chunk in self.spec['chunks']:
            await conn.write(bytes.fromhex(chunk))
            await asyncio.sleep(0.01)
        await asyncio.sleep(0.2)
        await self.finish(conn)

    async def do_halfopen(self):
        conn = await self.chatter()
        await asyncio.sleep(1)
        await self.finish(conn)

    async def do_late(self):
        """Close before init is answered"""
        conn = await self.chatter()
        await self.init(conn, name='late')
        await asyncio.sleep(self.w.rng('rogue').random() * 0.01)
        await self.finish(conn)

    async def do_noread(self):
        from hat.drivers import tcp
        from hat.drivers import chatter
        conn = await self.chatter()
        await self.init(conn)
        for _ in range(self.spec['n']):
            await self.send(conn, 'HatEventer.MsgQueryReq',
                            ('latest', {'eventTypes': ('none', None)}), False)
        self.proc.stall(20 * NS)
        await self.finish(conn)

    async def do_chat(self):
        from hat import sbs
        from hat.drivers import chatter
        conn = await self.chatter()
        if self.spec['init']:
            await self.init(conn)
        for msg_type, data, last in self.spec['msgs']:
            await conn.send(chatter.Data(msg_type, bytes.fromhex(data)),
                            last=last)
        await asyncio.sleep(0.2)
        await self.finish(conn)

    def reg_data(self, mark):
        from hat.event import common
        return common.register_event_to_sbs(common.RegisterEvent(
            type=('a', 'rogue'), source_timestamp=None,
            payload=common.EventPayloadJson({'m': mark})))

    async def do_token(self):
        """Invalid token followed by requests"""
        from hat.event.eventer import common as ecommon
        spec = self.spec
        token = spec['token']
        if token == self.drv.plan['token']:
            return
        conn = await self.chatter()
        t = self.w.now
        await self.init(conn, token, 'refused')
        if spec['wait']:
            await asyncio.sleep(0.1)
        mark = next(self.drv._marks)
        received = []
        try:
            await self.send(conn, 'HatEventer.MsgRegisterReq',
                            [self.reg_data(mark)], False)
            await self.send(conn, 'HatEventer.MsgQueryReq',
                            ('latest', {'eventTypes': ('none', None)}), False)
            await self.send(conn, 'HatEventer.MsgInitReq',
                            {'clientName': 'refused',
                             'clientToken': ('none', None),
                             'subscriptions': [['*']],
                             'serverId': ('none', None),
                             'persisted': False}, False)
        except ConnectionError:
            pass
        ctx = self.ctx
        try:
            while True:
                msg, msg_type, data = await ecommon.receive_msg(conn)
                received.append((msg_type, data))
        except ConnectionError:
            pass
        self.drv.probe('token_refused')
        ctx.check('C15', 'rogue-answered', all(
            msg_type == 'HatEventer.MsgInitRes' and data[0] == 'error'
            for msg_type, data in received) and len(received) <= 1,
            lambda: f'refused client received {received}')
        ctx.check('C15', 'rogue-closed', self.w.now - t < 60 * NS,
                  lambda: f'refused client closed after '
                          f'{(self.w.now - t) / NS} s')
        await conn.async_close()

    async def do_poison(self):
        from hat.event import common
        what = self.spec['what']
        conn = await self.chatter()
        await self.init(conn)
        reg = {'type': ['poison', what],
               'sourceTimestamp': ('none', None),
               'payload': ('none', None)}
        query = None

        def ts(s, us):
            return 'value', {'s': s, 'us': us}

        n = 1
        if what == 'src_s_big':
            reg['sourceTimestamp'] = ts(1 << 63, 0)
        elif what == 'src_s_neg':
            reg['sourceTimestamp'] = ts(-(1 << 63) - 1, 0)
        elif what == 'src_s_max':
            reg['sourceTimestamp'] = ts((1 << 63) - 1, 999_999)
        elif what == 'src_s_min':
            reg['sourceTimestamp'] = ts(-(1 << 63), 0)
        elif what == 'json_nan_key':
            reg['payload'] = 'value', ('json', '{"a": {"b": [1, -Infinity]}}')
        elif what == 'src_us_big':
            reg['sourceTimestamp'] = ts(0, 1 << 32)
        elif what == 'src_us_neg':
            reg['sourceTimestamp'] = ts(0, -1)
        elif what == 'src_us_1e6':
            reg['sourceTimestamp'] = ts(1, 1_000_000)
        elif what == 'json_inf':
            reg['payload'] = 'value', ('json', '{"a": 1e999}')
        elif what == 'json_nan':
            reg['payload'] = 'value', ('json', '[NaN]')
        elif what == 'json_deep':
            reg['payload'] = 'value', (
                'json', '[' * self.spec['depth'] + ']' * self.spec['depth'])
        elif what == 'json_bad':
            reg['payload'] = 'value', ('json', '{')
        elif what == 'surrogate':
            reg['payload'] = 'value', ('json', '"\\ud800"')
        elif what == 'type_empty':
            reg['type'] = []
        elif what == 'type_star':
            reg['type'] = ['poison', '*', '?']
        elif what == 'huge_type':
            reg['type'] = ['x' * 5000] * 3
        elif what == 'bin_type':
            reg['payload'] = 'value', ('binary', {'type': 'x' * 3000,
                                                  'data': b'\x00' * 20000})
        elif what == 'many_events':
            n = 200
        elif what == 'empty_register':
            n = 0
        elif what == 'query_big':
            query = {'eventTypes': ('none', None), 'tFrom': ts(1 << 70, 0),
                     'tTo': ts(1 << 71, -5)}
        elif what == 'query_neg':
            query = {'eventTypes': ('none', None), 'maxResults':
                     ('value', -3)}
        elif what == 'query_id':
            query = {'eventTypes': ('none', None), 'lastEventId':
                     ('value', {'server': 1 << 80, 'session': -1,
                                'instance': 5})}
        if query is not None:
            data = {'tFrom': ('none', None), 'tTo': ('none', None),
                    'sourceTFrom': ('none', None),
                    'sourceTTo': ('none', None),
                    'order': ('descending', None),
                    'orderBy': ('timestamp', None),
                    'maxResults': ('none', None),
                    'lastEventId': ('none', None)}
            data.update(query)
            await self.send(conn, 'HatEventer.MsgQueryReq',
                            ('timeseries', data), False)
        else:
            from hat.event import common
            await self.send(conn, 'HatEventer.MsgRegisterReq', [reg] * n,
                            False)
        await asyncio.sleep(0.5)
        await self.finish(conn)
