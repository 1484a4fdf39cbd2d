"""Simulated TCP network.

In-memory reliable byte streams between processes, with arbitrary
segmentation, latency, bounded buffers (back-pressure), connection refusal,
resets, partitions (data stalls until the partition heals or TCP gives up),
half-open connections after power loss and stalled links.
"""

import asyncio
import asyncio.base_events
import collections
import errno
import socket

from .core import NS, ns


class _Sock:
    """Fake listening socket"""

    def __init__(self, host, port):
        self.addr = (host, port)

    def getsockname(self):
        return self.addr

    def listen(self, backlog):
        pass

    def close(self):
        pass

    def fileno(self):
        return -1

    family = socket.AF_INET
    type = socket.SOCK_STREAM
    proto = 0


class Link:
    """Conditions between two nodes (symmetric)"""

    def __init__(self):
        self.blocked_since = None
        self.extra_latency = 0


class Network:

    def __init__(self, world, conf):
        self.world = world
        self.lat_min = ns(conf.get('lat_min', 0.0001))
        self.lat_max = ns(conf.get('lat_max', 0.005))
        self.spike_p = conf.get('spike_p', 0.002)
        self.spike_max = ns(conf.get('spike_max', 0.3))
        self.seg_p = conf.get('seg_p', 0.1)
        self.window = conf.get('window', 65536)
        self.high = conf.get('high', 65536)
        self.tcp_timeout = ns(conf.get('tcp_timeout', 120))
        self.links = {}
        self.conn_seq = 0
        self.conns = {}
        self.rng = world.rng('net')

    def link(self, a, b) -> Link:
        key = (a.name, b.name) if a.name < b.name else (b.name, a.name)
        link = self.links.get(key)
        if link is None:
            link = self.links[key] = Link()
        return link

    def latency(self, a, b, rng):
        if a is b:
            d = 5_000 + int(rng.random() * 100_000)
        else:
            d = (self.lat_min +
                 int(rng.random() * (self.lat_max - self.lat_min)) +
                 self.link(a, b).extra_latency)
        if rng.random() < self.spike_p:
            self.world.faults['latency_spike'] += 1
            d += int(rng.random() * self.spike_max)
        return d

    def is_blocked(self, a, b):
        return a is not b and self.link(a, b).blocked_since is not None

    # faults

    def partition(self, a, b):
        link = self.link(a, b)
        if a is b or link.blocked_since is not None:
            return
        w = self.world
        w.faults['partition'] += 1
        w.trace('partition', a.name, b.name)
        link.blocked_since = since = w.now

        def check():
            if link.blocked_since != since:
                return
            for c in list(self.conns.values()):
                if c.between(a, b):
                    for ep in c.eps:
                        if ep.flight or c.held[ep.side]:
                            ep.timed_out()
            w.after(self.tcp_timeout, check)

        w.after(self.tcp_timeout, check)

    def heal(self, a, b):
        link = self.link(a, b)
        if link.blocked_since is None:
            return
        self.world.trace('heal', a.name, b.name)
        link.blocked_since = None
        for c in list(self.conns.values()):
            if c.between(a, b):
                c.release()

    def heal_all(self):
        for (na, nb), link in list(self.links.items()):
            self.heal(self.world.nodes[na], self.world.nodes[nb])

    def reset(self, a, b, pick=None):
        """Reset established connections between nodes"""
        conns = [c for c in self.conns.values() if c.between(a, b) and c.open]
        if pick is not None and conns:
            conns = [conns[pick % len(conns)]]
        for c in conns:
            self.world.faults['conn_reset'] += 1
            c.reset()

    # hosts and processes

    def resolve(self, proc, host):
        if host in ('127.0.0.1', 'localhost'):
            return proc.node
        return self.world.hosts.get(host)

    def on_proc_dead(self, proc, power):
        node = proc.node
        for port, (p, *_) in list(node.listeners.items()):
            if p is proc:
                del node.listeners[port]
        for ep in list(proc.endpoints.values()):
            ep.proc_dead(power)
        proc.endpoints.clear()

    def on_node_up(self, node):
        held, node.held = node.held, collections.deque()
        for fn, args in held:
            self.world.after(0, fn, *args)

    # servers

    async def create_server(self, proc, protocol_factory, host, port, kwargs):
        if kwargs.get('ssl'):
            raise NotImplementedError('ssl')
        node = proc.node
        if port == 0:
            port = next(node.next_port)
        if port in node.listeners:
            raise OSError(errno.EADDRINUSE, 'address already in use')
        self.world.trace('listen', proc.name, port)
        server = asyncio.base_events.Server(
            proc.loop, [_Sock(host, port)], protocol_factory, None, 100, None)
        server._start_serving()
        await asyncio.sleep(0)
        return server

    def start_serving(self, proc, protocol_factory, sock, server):
        proc.node.listeners[sock.addr[1]] = (proc, protocol_factory, server)

    def stop_serving(self, proc, sock):
        cur = proc.node.listeners.get(sock.addr[1])
        if cur and cur[0] is proc:
            del proc.node.listeners[sock.addr[1]]

    # connecting

    async def create_connection(self, proc, protocol_factory, host, port,
                                kwargs):
        if kwargs.get('ssl'):
            raise NotImplementedError('ssl')
        w = self.world
        loop = proc.loop
        w.stats['connect'] += 1
        dst = self.resolve(proc, host)
        if dst is None:
            await asyncio.sleep(0.01)
            raise socket.gaierror(socket.EAI_NONAME,
                                  'Name or service not known')
        attempt = _Attempt(self, proc, dst, port)
        try:
            ep = await attempt.fut
        except BaseException:
            attempt.cancel()
            raise
        protocol = protocol_factory()
        waiter = loop.create_future()
        ep.attach(protocol, None)
        loop.call_soon(protocol.connection_made, ep)
        loop.call_soon(ep.start_reading)
        loop.call_soon(lambda: waiter.done() or waiter.set_result(None))
        try:
            await waiter
        except BaseException:
            ep.close()
            raise
        return ep, protocol


class _Attempt:
    """TCP connection attempt"""

    def __init__(self, net, proc, dst, port):
        self.net = net
        self.proc = proc
        self.dst = dst
        self.port = port
        self.fut = proc.loop.create_future()
        self.retry = 1
        self.started = net.world.now
        self.conn = None
        self.cancelled = False
        self._syn()

    def _lat(self):
        return self.net.latency(self.proc.node, self.dst, self.net.rng)

    def _syn(self):
        self.net.world.after(self._lat(), self._syn_arrive)

    def _done(self, exc, result=None):
        def cb():
            if self.fut.done():
                if result is not None:
                    result.close()
                return
            if exc is not None:
                self.fut.set_exception(exc)
            else:
                self.fut.set_result(result)
        self.proc.loop._add_io(cb)

    def _syn_arrive(self):
        if self.cancelled or not self.proc.alive:
            return
        w = self.net.world
        if self.net.is_blocked(self.proc.node, self.dst) or not self.dst.up:
            w.faults['connect_blackhole'] += 1
            if w.now - self.started > self.net.tcp_timeout:
                self._done(TimeoutError(errno.ETIMEDOUT,
                                        'Connection timed out'))
                return
            w.after(self.retry * NS, self._syn)
            self.retry *= 2
            return
        listener = self.dst.listeners.get(self.port)
        if listener is None or not listener[0].alive:
            w.faults['connect_refused'] += 1
            w.after(self._lat(), self._done,
                    ConnectionRefusedError(errno.ECONNREFUSED,
                                           'Connection refused'))
            return
        self.conn = conn = Conn(self.net, self.proc, listener[0], self.port)
        self.proc.peers[self.dst.name, self.port] = listener[0]
        w.trace('connect', conn.id, self.proc.name, listener[0].name,
                self.port)
        listener[0].loop._add_io(conn.accept, listener)
        w.after(self._lat(), self._synack)

    def _synack(self):
        if not self.proc.alive:
            return
        if self.cancelled:
            self.conn.eps[0].kernel_close()
            return
        self._done(None, self.conn.eps[0])

    def cancel(self):
        self.cancelled = True
        if self.conn:
            self.conn.eps[0].kernel_close()


class Conn:

    def __init__(self, net, client, server, port):
        self.net = net
        self.world = net.world
        net.conn_seq += 1
        self.id = net.conn_seq
        self.rng = self.world.rng(f'conn/{self.id}')
        self.nodes = (client.node, server.node)
        caddr = (client.node.host, next(client.node.next_port))
        saddr = (server.node.host, port)
        self.eps = (Endpoint(self, 0, client, caddr, saddr),
                    Endpoint(self, 1, server, saddr, caddr))
        # wire[side]: items sent by `side` in order, each with one arrival
        # scheduled - or held (held[side]) while the link is partitioned
        self.wire = (collections.deque(), collections.deque())
        self.held = [0, 0]
        self.last = [0, 0]
        self.open = True
        self.broken = False
        net.conns[self.id] = self

    def between(self, a, b):
        return self.nodes == (a, b) or self.nodes == (b, a)

    def accept(self, listener):
        proc, factory, server = listener
        ep = self.eps[1]
        if ep.dead:
            return
        cur = proc.node.listeners.get(self.eps[1].sockname[1])
        if cur is None or cur[2] is not server:
            ep.kernel_close(rst=True)
            return
        protocol = factory()
        ep.attach(protocol, server)
        proc.loop.call_soon(protocol.connection_made, ep)
        proc.loop.call_soon(ep.start_reading)

    def send(self, side, item):
        """Put item (bytes, 'fin', 'rst') on the wire"""
        w = self.world
        a, b = self.nodes[side], self.nodes[1 - side]
        if self.broken:
            return      # nothing passes after reset
        self.wire[side].append(item)
        if self.held[side] or self.net.is_blocked(a, b):
            self.held[side] += 1
            w.stats['held_segments'] += 1
            return
        t = w.now + self.net.latency(a, b, self.rng)
        if t < self.last[side]:
            t = self.last[side]
        self.last[side] = t
        w.at(t, self._arrive, side)

    def release(self):
        for side in (0, 1):
            n, self.held[side] = self.held[side], 0
            a, b = self.nodes[side], self.nodes[1 - side]
            for _ in range(n):
                t = (self.world.now + self.net.latency(a, b, self.rng) +
                     int(self.rng.random() * 0.2 * NS))
                if t < self.last[side]:
                    t = self.last[side]
                self.last[side] = t
                self.world.at(t, self._arrive, side)

    def _arrive(self, side):
        a, b = self.nodes[side], self.nodes[1 - side]
        if self.net.is_blocked(a, b):
            self.held[side] += 1
            return
        if not b.up:
            b.held.append((self._arrive, (side, )))
            return
        if not self.wire[side]:
            return      # connection was reset
        item = self.wire[side].popleft()
        self.world.tick(b'N%d.%d' % (self.id, side))
        self.eps[1 - side].arrive(item)

    def reset(self):
        """Connection lost in the middle (both sides see reset)"""
        self.world.trace('reset', self.id)
        self.open = False
        self.broken = True
        for side in (0, 1):
            self.wire[side].clear()
            self.held[side] = 0
            ep = self.eps[side]
            self.world.after(
                int(self.rng.random() * 0.05 * NS), ep.kernel_error,
                ConnectionResetError(errno.ECONNRESET, 'reset by peer'))

    def check_gone(self):
        if self.eps[0].dead and self.eps[1].dead:
            self.open = False
            self.net.conns.pop(self.id, None)


class Endpoint(asyncio.Transport):
    """One side of connection (asyncio transport + kernel socket)"""

    def __init__(self, conn, side, proc, sockname, peername):
        super().__init__()
        self.conn = conn
        self.side = side
        self.proc = proc
        self.loop = proc.loop
        self.world = conn.world
        self.sockname = sockname
        self.peername = peername
        self.protocol = None
        self.server = None
        self.out = collections.deque()
        self.out_size = 0
        self.flight = 0          # bytes not yet consumed by peer
        self.rx = collections.deque()
        self.paused = False
        self.reading = False
        self.closing = False
        self.eof = False
        self.dead = False        # kernel socket closed
        self.lost = False        # connection_lost scheduled
        self.wpaused = False
        self.high = conn.net.high
        self.low = conn.net.high // 4
        self.read_pending = False
        self.error = None
        proc.endpoints[(conn.id, side)] = self

    # kernel

    def peer(self):
        return self.conn.eps[1 - self.side]

    def arrive(self, item):
        if self.dead:
            if item == 'rst' or item == 'fin':
                return
            if isinstance(item, tuple):
                return
            self.conn.send(self.side, 'rst')
            return
        if item == 'rst':
            self.kernel_error(ConnectionResetError(errno.ECONNRESET,
                                                   'reset by peer'))
            return
        if isinstance(item, tuple):     # ack
            self.flight -= item[1]
            if self.out or self.wpaused:
                self.loop._add_io(self._write_ready)
            return
        self.rx.append(item)
        self._wake_reader()

    def kernel_error(self, exc):
        if self.dead:
            return
        self.error = exc
        self._wake_reader()
        if self.out and self.protocol is not None:
            self.loop._add_io(self._write_ready)

    def timed_out(self):
        if self.dead:
            return
        self.world.faults['tcp_timeout'] += 1
        self.kernel_error(TimeoutError(errno.ETIMEDOUT,
                                       'Connection timed out'))

    def kernel_close(self, rst=False):
        """Close socket"""
        if self.dead:
            return
        self.dead = True
        self.proc.endpoints.pop((self.conn.id, self.side), None)
        unread = any(i != 'fin' for i in self.rx)
        self.conn.send(self.side, 'rst' if rst or unread else 'fin')
        self.conn.check_gone()

    def proc_dead(self, power):
        if self.dead:
            return
        self.dead = True
        if not power:
            unread = any(i != 'fin' for i in self.rx)
            self.conn.send(self.side, 'rst' if unread or self.out else 'fin')
        else:
            self.world.faults['half_open'] += 1
            # segments not yet on the wire are lost; peers learn about it
            # once they send something to the rebooted host
            w = self.world
            w.after(self.conn.net.tcp_timeout, self._power_timeout)
        self.conn.check_gone()

    def _power_timeout(self):
        p = self.peer()
        if p.dead:
            return
        if p.flight:
            p.timed_out()
        else:
            self.world.after(self.conn.net.tcp_timeout, self._power_timeout)

    # reading

    def _wake_reader(self):
        if (self.reading and not self.paused and not self.closing and
                not self.read_pending and (self.rx or self.error)):
            self.read_pending = True
            self.loop._add_io(self._read_ready)

    def start_reading(self):
        if self.closing:
            return
        self.reading = True
        self._wake_reader()

    def _read_ready(self):
        self.read_pending = False
        if self.paused or self.closing or self.lost:
            return
        if not self.rx:
            if self.error:
                self._force_close(self.error)
            return
        item = self.rx.popleft()
        if item == 'fin':
            keep_open = False
            try:
                keep_open = self.protocol.eof_received()
            except Exception as e:
                self._fatal(e)
                return
            if not keep_open:
                self.close()
            return
        data = item
        rng = self.conn.rng
        while (self.rx and self.rx[0] != 'fin' and len(data) < 256 * 1024 and
               rng.random() < 0.8):
            data += self.rx.popleft()
        self.conn.send(self.side, ('ack', len(data)))
        self.world.stats['net_reads'] += 1
        try:
            self.protocol.data_received(data)
        except Exception as e:
            self._fatal(e)
            return
        self._wake_reader()
        for fn in self.proc.data.pop('on_input', ()):
            fn()

    # writing

    def _pump(self):
        conn = self.conn
        rng = conn.rng
        net = conn.net
        while self.out and self.flight < net.window:
            data = self.out.popleft()
            room = net.window - self.flight
            n = min(len(data), room)
            if n > 1 and rng.random() < net.seg_p:
                n = 1 + int(rng.random() * (n - 1))
                self.world.faults['segmentation'] += 1
            if n < len(data):
                self.out.appendleft(data[n:])
                data = data[:n]
            self.out_size -= n
            self.flight += n
            self.world.stats['net_segments'] += 1
            self.world.stats['net_bytes'] += n
            conn.send(self.side, data)

    def _write_ready(self):
        if self.dead or self.lost:
            return
        if self.error is not None:
            self._force_close(self.error)
            return
        self._pump()
        if self.wpaused and self.out_size <= self.low:
            self.wpaused = False
            try:
                self.protocol.resume_writing()
            except Exception as e:
                self.loop.call_exception_handler(
                    {'message': 'resume_writing', 'exception': e})
        if self.closing and not self.out and not self.lost:
            self._lose(None)

    # transport

    def attach(self, protocol, server):
        self.protocol = protocol
        self.server = server
        if server is not None:
            server._attach()

    def _fatal(self, exc):
        self.loop.call_exception_handler(
            {'message': 'Fatal error on transport', 'exception': exc})
        self._force_close(exc)

    def _lose(self, exc):
        if self.lost:
            return
        self.lost = True
        self.loop.call_soon(self._connection_lost, exc)

    def _force_close(self, exc):
        if self.lost:
            return
        self.out.clear()
        self.out_size = 0
        self.closing = True
        self.rst_on_close = True
        self._lose(exc)

    def _connection_lost(self, exc):
        try:
            self.protocol.connection_lost(exc)
        finally:
            self.world.trace('lost', self.conn.id, self.side)
            self.kernel_close(rst=getattr(self, 'rst_on_close', False))
            if self.server is not None:
                self.server._detach()
                self.server = None

    def get_extra_info(self, name, default=None):
        if name == 'sockname':
            return self.sockname
        if name == 'peername':
            return self.peername
        return default

    def is_closing(self):
        return self.closing

    def close(self):
        if self.closing:
            return
        self.closing = True
        if self.protocol is None:
            self.kernel_close()
            return
        if not self.out:
            self._lose(None)

    def abort(self):
        self._force_close(None)

    def set_protocol(self, protocol):
        self.protocol = protocol

    def get_protocol(self):
        return self.protocol

    def is_reading(self):
        return not self.paused and not self.closing

    def pause_reading(self):
        if self.paused or self.closing:
            return
        self.paused = True

    def resume_reading(self):
        if not self.paused or self.closing:
            return
        self.paused = False
        self._wake_reader()

    def set_write_buffer_limits(self, high=None, low=None):
        self.high = 65536 if high is None else high
        self.low = self.high // 4 if low is None else low

    def get_write_buffer_size(self):
        return self.out_size

    def get_write_buffer_limits(self):
        return self.low, self.high

    def write(self, data):
        if self.eof:
            raise RuntimeError('Cannot call write() after write_eof()')
        if not data or self.lost:
            return
        if self.error is not None or self.dead:
            self._force_close(self.error or ConnectionResetError())
            return
        data = bytes(data)
        self.out.append(data)
        self.out_size += len(data)
        self._pump()
        if self.out_size > self.high and not self.wpaused:
            self.wpaused = True
            self.world.probes['backpressure'] += 1
            self.protocol.pause_writing()

    def writelines(self, list_of_data):
        self.write(b''.join(list_of_data))

    def can_write_eof(self):
        return True

    def write_eof(self):
        self.eof = True
