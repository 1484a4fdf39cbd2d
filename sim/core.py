"""Deterministic simulation core.

One `World` owns virtual time, one event heap and every source of randomness.
A `Node` is a simulated host (durable disk directory, clock, addresses), a
`Proc` is one process incarnation on a node: it has its own asyncio event loop
(`SimLoop`) whose callbacks are executed by the world one at a time.  Killing a
process simply means that none of its callbacks ever runs again.

Everything that happens is a pure function of the plan (a JSON document, see
runner.py) and of the code under test.
"""

import asyncio
import collections
import concurrent.futures
import contextvars
import heapq
import itertools
import logging
import math
import os
import random
import sys
import threading
import time as _time
import traceback
import zlib


NS = 1_000_000_000

_real_time = _time.time
_real_monotonic = _time.monotonic
_real_perf_counter = _time.perf_counter
_real_time_ns = _time.time_ns
_real_monotonic_ns = _time.monotonic_ns
_real_sleep = _time.sleep

#: the world being simulated (one per OS process)
world: 'World' = None


class HarnessError(Exception):
    """Error of the simulator or scenario (never a violation)"""


class StepLimit(Exception):
    """Too many simulated steps"""


class ProcKilled(BaseException):
    pass


def _Baton():
    lock = threading.Lock()
    lock.acquire()
    return lock


def sec(ns):
    return ns / NS


def ns(s):
    return int(round(s * NS))


class World:

    def __init__(self, seed, conf=None):
        global world
        conf = conf or {}
        self.seed = seed
        self.now = 0
        self.base_mono = 1000.0
        self.base_wall = conf.get('base_wall', 1_700_000_000.0)
        self.heap = []
        self._seq = itertools.count()
        self._pids = itertools.count(1)
        self._rngs = {}
        self.nodes = {}
        self.hosts = {}
        self.proc = None          # currently executing process
        self.job = None           # currently executing executor job
        self.stats = collections.Counter()
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.graveyard = []
        self.trace_crc = 0
        self.trace_count = 0
        self.trace_log = [] if conf.get('trace') else None
        self.trace_full = conf.get('trace') == 'full'
        self.order_crc = 0
        self.on_log = None
        self.logs = collections.deque(maxlen=conf.get('max_logs', 4000))
        self.max_steps = conf.get('max_steps', 3_000_000)
        self.steps = 0
        self.cost_min = conf.get('cost_min', 2_000)
        self.cost_max = conf.get('cost_max', 30_000)
        self.preempt = conf.get('preempt', 0.05)
        self.preempt_line = conf.get('preempt_line', 0)
        self.job_delay_max = ns(conf.get('job_delay_max', 0.002))
        self.job_slow_p = conf.get('job_slow_p', 0.02)
        self.job_slow_max = ns(conf.get('job_slow_max', 0.5))
        self.invariants = []
        self.stopped = False
        self._hash_rng = self.rng('hash')
        self._main_sem = _Baton()
        self.handle_started = None
        self.errors = []
        world = self
        from . import net
        self.net = net.Network(self, conf.get('net') or {})

    def calm(self):
        """Stop artificial preemption and delays (end of fault injection)"""
        self.preempt = 0
        self.preempt_line = 0
        self.job_delay_max = min(self.job_delay_max, 500_000)

    def rng(self, name) -> random.Random:
        r = self._rngs.get(name)
        if r is None:
            r = self._rngs[name] = random.Random(f'{self.seed}/{name}')
        return r

    def next_hash(self):
        return self._hash_rng.getrandbits(60)

    # events

    def at(self, t, fn, *args):
        if t < self.now:
            t = self.now
        heapq.heappush(self.heap, (t, next(self._seq), fn, args))

    def after(self, d, fn, *args):
        heapq.heappush(self.heap,
                       (self.now + max(0, d), next(self._seq), fn, args))

    def trace(self, *data):
        """Record observable event (part of trace hash)"""
        self.trace_count += 1
        text = f'{self.now} {data!r}'
        self.trace_crc = zlib.crc32(text.encode(), self.trace_crc)
        if self.trace_log is not None:
            self.trace_log.append(text)

    def tick(self, code):
        """Account scheduling decision (part of trace hash)"""
        self.order_crc = zlib.crc32(code, self.order_crc)
        self.trace_crc = (self.trace_crc * 1000003 ^ self.now ^
                          self.order_crc) & 0xffffffffffffffff
        if self.trace_full:
            self.trace_log.append(
                f'{self.now} {code!r} '
                f'{getattr(self.handle_started, "_callback", self.handle_started)!r:.200}')

    def add_node(self, name, host, **kwargs) -> 'Node':
        node = Node(self, name, host, **kwargs)
        self.nodes[name] = node
        self.hosts[host] = node
        return node

    def run(self, until):
        """Run simulation until virtual time (ns) or until stopped"""
        heap = self.heap
        pop = heapq.heappop
        while heap and not self.stopped:
            if heap[0][0] > until:
                break
            t, _, fn, args = pop(heap)
            if t > self.now:
                self.now = t
            fn(*args)
            if self.invariants:
                for i in self.invariants:
                    i()
        if not self.stopped and self.now < until:
            self.now = until

    def step_limit(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise StepLimit()

    # clocks

    def mono(self):
        return self.base_mono + self.now / NS

    def wall_ns(self, node=None):
        node = node or (self.proc.node if self.proc else None)
        t = int(self.base_wall * NS) + self.now
        if node:
            t += node.clock_offset + int(self.now * node.clock_rate)
        return t


class Node:
    """Simulated host"""

    def __init__(self, world, name, host, clock_offset=0, clock_rate=0,
                 root=None):
        self.world = world
        self.name = name
        self.host = host
        self.clock_offset = clock_offset
        self.clock_rate = clock_rate
        self.root = root
        self.procs = []
        self.up = True
        self.listeners = {}
        self.held = collections.deque()
        self.next_port = itertools.count(40000)
        from . import disk
        self.disk = disk.Disk(world, self)

    def spawn(self, name='main') -> 'Proc':
        if not self.up:
            self.boot()
        p = Proc(self, name)
        self.procs.append(p)
        return p

    def boot(self):
        self.up = True
        self.world.net.on_node_up(self)

    def crash(self, power=False):
        """Kill every process on the node (host power loss if `power`)"""
        w = self.world
        w.faults['crash_power' if power else 'crash_kill'] += 1
        w.trace('crash', self.name, power)
        if power:
            self.up = False
        for p in list(self.procs):
            p.kill(power)
        self.disk.crash(power)

    def jump_clock(self, delta_ns):
        self.world.faults['clock_jump'] += 1
        self.clock_offset += delta_ns


async def guard(coro):
    """Errors of harness coroutines are harness errors"""
    try:
        return await coro
    except asyncio.CancelledError:
        raise
    except Exception as e:
        world.errors.append(''.join(traceback.format_exception(e))[-3000:])
        world.stopped = True
        raise


class Proc:
    """Process incarnation"""

    def __init__(self, node, name):
        self.node = node
        self.name = f'{node.name}/{name}'
        self.world = node.world
        self.alive = True
        self.pid = next(node.world._pids)
        self.loop = SimLoop(self)
        self.endpoints = {}
        self.peers = {}
        self.module_globals = {}
        self.executors = {}
        self.data = {}

    def kill(self, power=False):
        if not self.alive:
            return
        self.alive = False
        self.world.graveyard.append(self)
        if self in self.node.procs:
            self.node.procs.remove(self)
        self.world.net.on_proc_dead(self, power)

    def call(self, fn, *args):
        """Execute function in the context of the process (synchronously)"""
        w = self.world
        prev = w.proc
        w.proc = self
        prev_loop = asyncio._get_running_loop()
        asyncio._set_running_loop(self.loop)
        try:
            return fn(*args)
        finally:
            asyncio._set_running_loop(prev_loop)
            w.proc = prev
            self.loop._kick()

    def start(self, coro_fn, *args, name=None):
        """Start harness coroutine as task of the process"""
        return self.call(lambda: self.loop.create_task(
            guard(coro_fn(*args)), name=name))

    def stall(self, dur):
        """Process doesn't get CPU for duration"""
        self.world.faults['stall'] += 1
        self.loop._free_at = max(self.loop._free_at, self.world.now) + dur


class SimFuture(asyncio.Future):

    def __hash__(self):
        try:
            return self._sim_hash
        except AttributeError:
            h = self._sim_hash = (world.next_hash() if world else
                                  next(_pre_hash))
            return h


class SimTask(asyncio.Task):

    def __hash__(self):
        try:
            return self._sim_hash
        except AttributeError:
            h = self._sim_hash = (world.next_hash() if world else
                                  next(_pre_hash))
            return h


class SimLoop(asyncio.AbstractEventLoop):
    """Event loop of single process.

    Keeps asyncio semantics: FIFO ready queue, processed in iterations - I/O
    events and due timers are appended at the beginning of each iteration.
    """

    def __init__(self, proc):
        self.proc = proc
        self.world = proc.world
        self._ready = collections.deque()
        self._io = collections.deque()
        self._timers = []
        self._timer_seq = itertools.count()
        self._todo = 0
        self._free_at = 0
        self._code = b'L%d' % proc.pid
        self._scheduled = False
        self._wake_at = None
        self._closed = False
        self._rng = self.world.rng(f'loop/{proc.name}/{proc.pid}')
        self._exception_handler = None
        self._running = False

    # internals

    def _kick(self):
        if self._scheduled or self._running or not self.proc.alive:
            return
        self._scheduled = True
        w = self.world
        w.at(self._free_at if self._free_at > w.now else w.now, self._run)

    def _add_io(self, fn, *args):
        """I/O event, delivered at start of next loop iteration"""
        if not self.proc.alive:
            return
        self._io.append(asyncio.Handle(fn, args, self))
        self._kick()

    def _timer_wake(self, when):
        if self._wake_at == when:
            self._wake_at = None
        self._kick()

    def _run(self):
        self._scheduled = False
        if not self.proc.alive:
            return
        w = self.world
        if self._free_at > w.now:
            self._kick()
            return
        heap = w.heap
        ready = self._ready
        timers = self._timers
        rand = self._rng.random
        cost_min = w.cost_min
        cost_span = w.cost_max - w.cost_min
        proc = self.proc
        code = self._code
        prev_proc = w.proc
        w.proc = proc
        self._running = True
        asyncio._set_running_loop(self)
        try:
            while proc.alive:
                if self._todo <= 0:
                    io = self._io
                    while io:
                        ready.append(io.popleft())
                    now = w.now
                    while timers and (timers[0][0] <= now or
                                      timers[0][2]._cancelled):
                        h = heapq.heappop(timers)[2]
                        h._scheduled = False
                        if not h._cancelled:
                            ready.append(h)
                    self._todo = len(ready)
                    if not ready:
                        break
                self._todo -= 1
                handle = ready.popleft()
                if handle._cancelled:
                    continue
                w.step_limit()
                w.handle_started = handle
                w.tick(code)
                handle._run()
                handle = None
                self._free_at = t = (max(w.now, self._free_at) + cost_min +
                                     int(rand() * cost_span))
                if w.stopped:
                    break
                if heap and heap[0][0] <= t:
                    break
                if t > w.now:
                    w.now = t
                if w.invariants:
                    for i in w.invariants:
                        i()
        finally:
            w.handle_started = None
            asyncio._set_running_loop(None)
            self._running = False
            w.proc = prev_proc
        if not proc.alive:
            return
        if ready or self._io:
            self._kick()
        elif timers:
            when = timers[0][0]
            if self._wake_at is None or when < self._wake_at:
                self._wake_at = when
                w.at(when, self._timer_wake, when)

    # AbstractEventLoop

    def run_forever(self):
        raise HarnessError('run_forever in simulation')

    def run_until_complete(self, future):
        raise HarnessError('run_until_complete in simulation')

    def stop(self):
        pass

    def is_running(self):
        return self._running

    def is_closed(self):
        return self._closed

    def close(self):
        self._closed = True

    async def shutdown_asyncgens(self):
        pass

    async def shutdown_default_executor(self, timeout=None):
        pass

    def get_debug(self):
        return False

    def set_debug(self, enabled):
        pass

    def time(self):
        return self.world.mono()

    def call_soon(self, callback, *args, context=None):
        h = asyncio.Handle(callback, args, self, context)
        self._ready.append(h)
        if not self._running and not self._scheduled:
            self._kick()
        return h

    def call_soon_threadsafe(self, callback, *args, context=None):
        return self.call_soon(callback, *args, context=context)

    def call_later(self, delay, callback, *args, context=None):
        return self.call_at(self.time() + delay, callback, *args,
                            context=context)

    def call_at(self, when, callback, *args, context=None):
        h = asyncio.TimerHandle(when, callback, args, self, context)
        t = math.ceil((when - self.world.base_mono) * NS)
        heapq.heappush(self._timers, (t, next(self._timer_seq), h))
        h._scheduled = True
        if not self._running:
            w = self.world
            if self._wake_at is None or t < self._wake_at:
                self._wake_at = t
                w.at(t, self._timer_wake, t)
        return h

    def _timer_handle_cancelled(self, handle):
        pass

    def create_future(self):
        return SimFuture(loop=self)

    def create_task(self, coro, *, name=None, context=None):
        if context is None:
            return SimTask(coro, loop=self, name=name or 'task')
        return SimTask(coro, loop=self, name=name or 'task', context=context)

    def set_task_factory(self, factory):
        raise HarnessError('task factory')

    def get_task_factory(self):
        return None

    def run_in_executor(self, executor, func, *args):
        return self.proc_executor(executor).submit(func, args)

    def proc_executor(self, executor):
        ex = self.proc.executors.get(id(executor))
        if ex is None:
            ex = SimExecutor(self.proc, executor)
            self.proc.executors[id(executor)] = ex
        return ex

    def set_default_executor(self, executor):
        pass

    async def getaddrinfo(self, host, port, **kwargs):
        raise HarnessError('getaddrinfo')

    async def create_connection(self, protocol_factory, host=None, port=None,
                                **kwargs):
        return await self.world.net.create_connection(
            self.proc, protocol_factory, host, port, kwargs)

    async def create_server(self, protocol_factory, host=None, port=None,
                            **kwargs):
        return await self.world.net.create_server(
            self.proc, protocol_factory, host, port, kwargs)

    def _start_serving(self, protocol_factory, sock, sslcontext=None,
                       server=None, backlog=100, *args, **kwargs):
        self.world.net.start_serving(self.proc, protocol_factory, sock, server)

    def _stop_serving(self, sock):
        self.world.net.stop_serving(self.proc, sock)

    def add_signal_handler(self, sig, callback, *args):
        pass

    def remove_signal_handler(self, sig):
        pass

    def set_exception_handler(self, handler):
        self._exception_handler = handler

    def get_exception_handler(self):
        return self._exception_handler

    def default_exception_handler(self, context):
        w = self.world
        exc = context.get('exception')
        w.stats['loop_exception'] += 1
        w.logs.append((w.now, self.proc.name, 'asyncio', 'ERROR',
                       f"{context.get('message')}: {exc!r}"))
        if isinstance(exc, HarnessError):
            w.errors.append(repr(exc))

    def call_exception_handler(self, context):
        self.default_exception_handler(context)


class SimExecutor:
    """Simulated thread pool.

    Jobs run in real threads of which exactly one (or the world's main thread)
    executes at any time; they are preempted only at points decided by the
    world.
    """

    def __init__(self, proc, executor):
        self.proc = proc
        self.world = proc.world
        self.executor = executor
        self.max_workers = getattr(executor, '_max_workers', None) or 8
        self.queue = collections.deque()
        self.active = 0
        self.rng = self.world.rng(
            f'exec/{proc.name}/{proc.pid}/{len(proc.executors)}')

    def submit(self, func, args):
        if getattr(self.executor, '_shutdown', False):
            raise RuntimeError('cannot schedule new futures after shutdown')
        fut = self.proc.loop.create_future()
        job = Job(self, func, args, fut)
        self.queue.append(job)
        self._next()
        return fut

    def _delay(self):
        w = self.world
        r = self.rng
        if r.random() < w.job_slow_p:
            w.stats['job_slow'] += 1
            return int(r.random() * w.job_slow_max)
        return 5_000 + int(r.random() ** 3 * w.job_delay_max)

    def _next(self):
        while self.queue and self.active < self.max_workers:
            job = self.queue.popleft()
            if job.fut.cancelled():
                continue
            self.active += 1
            self.world.after(self._delay(), job.start)

    def _done(self, job):
        self.active -= 1
        self._next()


class Job:

    def __init__(self, executor, func, args, fut):
        self.executor = executor
        self.proc = executor.proc
        self.world = executor.world
        self.func = func
        self.args = args
        self.fut = fut
        self.sem = _Baton()
        self.finished = False
        self.result = None
        self.exc = None
        self.points = 0

    def start(self):
        if not self.proc.alive:
            return
        self.world.stats['jobs'] += 1
        thread = threading.Thread(target=self._main, daemon=True)
        thread.start()
        self._resume()

    def _main(self):
        self.sem.acquire()
        if self.world.preempt_line:
            sys.settrace(self._trace)
        try:
            self.result = self.func(*self.args)
        except BaseException as e:
            self.exc = e
        finally:
            sys.settrace(None)
        self.finished = True
        self.world._main_sem.release()

    def _trace(self, frame, event, arg):
        if '/hat/event/' not in frame.f_code.co_filename:
            return None
        return self._trace_line

    def _trace_line(self, frame, event, arg):
        if event == 'line':
            ex = self.executor
            if ex.rng.random() < self.world.preempt_line:
                self.world.stats['preempt_line'] += 1
                self.park(ex._delay())
        return self._trace_line

    def _resume(self):
        w = self.world
        if not self.proc.alive:
            return
        w.step_limit()
        prev = w.proc, w.job
        w.proc, w.job = self.proc, self
        w.handle_started = self.func
        w.tick(b'J%d' % self.proc.pid)
        self.sem.release()
        w._main_sem.acquire()
        w.handle_started = None
        w.proc, w.job = prev
        if self.finished and self.proc.alive:
            loop = self.proc.loop
            self.executor._done(self)
            loop.call_soon_threadsafe(self._set_result)

    def _set_result(self):
        if self.fut.done():
            return
        if self.exc is not None:
            exc = self.exc
            if isinstance(exc, StopIteration):
                exc = RuntimeError('StopIteration in executor')
            self.fut.set_exception(exc)
        else:
            self.fut.set_result(self.result)

    def park(self, delay):
        """Called in job's thread: give up the CPU for `delay`"""
        w = self.world
        w.after(delay, self._resume)
        w._main_sem.release()
        self.sem.acquire()

    def park_forever(self):
        self.world._main_sem.release()
        self.sem.acquire()
        raise HarnessError('dead job resumed')

    def point(self):
        """Possible preemption point"""
        w = self.world
        self.points += 1
        p = w.preempt
        if p and self.executor.rng.random() < p:
            w.stats['preempt'] += 1
            self.park(self.executor._delay())


class LogHandler(logging.Handler):
    """Collects log records of simulated processes (diagnostics only)"""

    def emit(self, record):
        w = world
        if w is None:
            return
        try:
            msg = record.getMessage()
        except Exception as e:
            msg = f'{record.msg!r} ({e!r})'
        w.logs.append((w.now, w.proc.name if w.proc else '-', record.name,
                       record.levelname, msg[:500]))
        if w.on_log:
            w.on_log(record.name, msg)
        if record.levelno >= logging.ERROR:
            w.stats['log_error'] += 1
        elif record.levelno >= logging.WARNING:
            w.stats['log_warning'] += 1


_patched = False


def patch():
    """Install clock, hashing and storage seams (once per OS process)"""
    global _patched
    if _patched:
        return
    _patched = True

    def p_time():
        w = world
        return w.wall_ns() / NS if w is not None else _real_time()

    def p_time_ns():
        w = world
        return w.wall_ns() if w is not None else _real_time_ns()

    def p_mono():
        w = world
        return w.mono() if w is not None else _real_monotonic()

    def p_mono_ns():
        w = world
        return int(w.mono() * NS) if w is not None else _real_monotonic_ns()

    def p_perf():
        w = world
        return w.mono() if w is not None else _real_perf_counter()

    def p_sleep(s):
        w = world
        if w is None:
            return _real_sleep(s)
        if w.job:
            w.job.park(ns(s))
        elif w.proc:
            w.proc.loop._free_at = max(w.proc.loop._free_at, w.now) + ns(s)

    _time.time = p_time
    _time.time_ns = p_time_ns
    _time.monotonic = p_mono
    _time.monotonic_ns = p_mono_ns
    _time.perf_counter = p_perf
    _time.sleep = p_sleep

    asyncio.Future = SimFuture
    asyncio.futures.Future = SimFuture

    from . import disk
    disk.patch()

    import hat.monitor.server.blessing as blessing
    blessing._next_tokens = _ProcCounter('blessing')

    logging.raiseExceptions = False
    root = logging.getLogger()
    root.handlers[:] = [LogHandler()]
    root.setLevel(logging.WARNING)
    import warnings
    warnings.simplefilter('ignore')


def patch_hashes():
    """Replace address based hashes (iteration order of sets and dicts must
    not depend on memory layout) by seeded ones"""
    seen = set()
    for name, mod in sorted(sys.modules.items()):
        if not (name == 'hat' or name.startswith('hat.')) or mod is None:
            continue
        for cls in list(vars(mod).values()):
            if (not isinstance(cls, type) or cls in seen or
                    not cls.__module__.startswith('hat.')):
                continue
            seen.add(cls)
            if cls.__hash__ is object.__hash__:
                try:
                    cls.__hash__ = _sim_hash
                except TypeError:
                    pass


_pre_hash = itertools.count(1)


def _sim_hash(self):
    try:
        return self._sim_hash_value
    except AttributeError:
        pass
    h = world.next_hash() if world else next(_pre_hash)
    try:
        object.__setattr__(self, '_sim_hash_value', h)
    except AttributeError:
        return 1
    return h


class _ProcCounter:
    """Module level counter with separate value for each process"""

    def __init__(self, name):
        self._name = name

    def __iter__(self):
        return self

    def __next__(self):
        p = world.proc
        v = p.module_globals.get(self._name, 0) + 1
        p.module_globals[self._name] = v
        return v
