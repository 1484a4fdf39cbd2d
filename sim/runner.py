"""Plan execution, parallel search, minimisation and replay."""

import collections
import gc
import importlib
import json
import os
import pathlib
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

from . import core


VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get('VERIF_REPO') or '/repo')
HANG_S = 40          # wall seconds without any simulated step
RUN_S = 240          # wall seconds of one run


class Violation(Exception):
    pass


class Ctx:
    """Per run context handed to scenarios"""

    def __init__(self, world, plan, scratch):
        self.world = world
        self.plan = plan
        self.scratch = pathlib.Path(scratch)
        self.violations = []
        self.target = plan.get('prop')
        self.evals = collections.Counter()
        self.samples = []

    def violate(self, props, kind, msg):
        """Report violation of one or more properties"""
        if isinstance(props, str):
            props = [props]
        w = self.world
        for p in props:
            if len(self.violations) < 50:
                self.violations.append({'prop': p, 'kind': kind,
                                        'msg': str(msg)[:2000],
                                        't': w.now / core.NS})
            w.trace('violation', p, kind)
        if self.target is None or self.target in props:
            w.stopped = True

    def check(self, props, kind, cond, msg=''):
        """Evaluate one oracle condition"""
        if isinstance(props, str):
            props = [props]
        for p in props:
            self.evals[p] += 1
        if not cond:
            self.violate(props, kind, msg() if callable(msg) else msg)
        return cond


def load_scenario(name):
    return importlib.import_module(f'sim.scenarios.{name}')


def _run_child(plan, scratch, wfd):
    """Executed in forked child"""
    result = {'violations': [], 'error': None}
    try:
        gc.disable()
        world = core.World(plan['seed'], plan.get('world'))
        ctx = Ctx(world, plan, scratch)
        start = time_real()
        last = [-1, start]

        def on_alarm(signum, frame):
            now = time_real()
            if world.steps != last[0]:
                last[0] = world.steps
                last[1] = now
            if now - last[1] > HANG_S:
                stacks = [''.join(traceback.format_stack(f)[-6:])
                          for f in sys._current_frames().values()]
                result['hang'] = repr(world.handle_started)[:300]
                result['error'] = 'hang: ' + '\n--\n'.join(stacks)[:4000]
                _finish(result, world, ctx, wfd)
            if now - start > RUN_S:
                result['error'] = 'timeout'
                _finish(result, world, ctx, wfd)

        signal.signal(signal.SIGALRM, on_alarm)
        signal.setitimer(signal.ITIMER_REAL, 5, 5)
        scenario = load_scenario(plan['scenario'])
        try:
            scenario.run(world, plan, ctx)
        except core.StepLimit:
            result['error'] = 'steplimit'
        if world.errors:
            result['error'] = 'harness: ' + '; '.join(world.errors[:3])
    except BaseException as e:
        result['error'] = ('harness: ' + ''.join(
            traceback.format_exception(e)))[:6000]
    try:
        _finish(result, world, ctx, wfd)
    except BaseException:
        os._exit(3)


def time_real():
    return core._real_monotonic()


def _finish(result, world, ctx, wfd):
    signal.setitimer(signal.ITIMER_REAL, 0)
    result['violations'] = ctx.violations
    result['evals'] = dict(ctx.evals)
    result['stats'] = dict(world.stats)
    result['faults'] = dict(world.faults)
    result['probes'] = dict(world.probes)
    result['sim_s'] = world.now / core.NS
    result['crc'] = world.trace_crc
    result['order_crc'] = world.order_crc
    result['events'] = world.trace_count
    result['steps'] = world.steps
    result['samples'] = ctx.samples[:2]
    if world.trace_log is not None:
        result['trace'] = world.trace_log
        result['logs'] = [repr(i) for i in world.logs]
    data = json.dumps(result, default=repr).encode()
    view = memoryview(data)
    while view:
        n = os.write(wfd, view)
        view = view[n:]
    os._exit(0)


class Run:

    def __init__(self, plan, root, idx):
        self.plan = plan
        self.scratch = os.path.join(root, f'run{idx}')
        os.mkdir(self.scratch)
        rfd, wfd = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(rfd)
            _run_child(plan, self.scratch, wfd)
            os._exit(3)
        os.close(wfd)
        self.fd = rfd
        self.buf = []
        self.started = time_real()

    def read(self):
        """Returns result once run is done"""
        data = os.read(self.fd, 1 << 20)
        if data:
            self.buf.append(data)
            return None
        os.close(self.fd)
        _, status = os.waitpid(self.pid, 0)
        shutil.rmtree(self.scratch, ignore_errors=True)
        try:
            result = json.loads(b''.join(self.buf))
        except Exception:
            result = {'violations': [], 'crashed': status,
                      'error': f'harness: child died, status {status}'}
        result['wall_s'] = time_real() - self.started
        return result

    def kill(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.close(self.fd)
        os.waitpid(self.pid, 0)
        shutil.rmtree(self.scratch, ignore_errors=True)


class Pool:
    """Runs plans in parallel forked children"""

    def __init__(self, workers=None):
        self.workers = workers or int(os.environ.get('VERIF_WORKERS', 0)) or (
            os.cpu_count() or 4)
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        self.root = tempfile.mkdtemp(prefix='verif-', dir=base)
        self.runs = {}
        self.idx = 0

    def close(self):
        for run in self.runs.values():
            run.kill()
        self.runs.clear()
        shutil.rmtree(self.root, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()

    def run_all(self, plans, deadline=None, stop=None):
        """Yield (plan, result) in order of completion"""
        plans = iter(plans)
        exhausted = False
        try:
            while True:
                while not exhausted and len(self.runs) < self.workers:
                    if deadline is not None and time_real() > deadline:
                        exhausted = True
                        break
                    try:
                        plan = next(plans)
                    except StopIteration:
                        exhausted = True
                        break
                    self.idx += 1
                    run = Run(plan, self.root, self.idx)
                    self.runs[run.fd] = run
                if not self.runs:
                    return
                ready, _, _ = select.select(list(self.runs), [], [], 5)
                for fd in list(self.runs):
                    run = self.runs[fd]
                    if fd in ready:
                        result = run.read()
                        if result is not None:
                            del self.runs[fd]
                            yield run.plan, result
                    elif time_real() - run.started > RUN_S + 60:
                        run.kill()
                        del self.runs[fd]
                        yield run.plan, {'violations': [],
                                         'error': 'timeout'}
        finally:
            for run in self.runs.values():
                run.kill()
            self.runs.clear()

    def run(self, plan):
        for _, result in self.run_all([plan]):
            return result


def matches(result, prop, kind):
    if kind == 'hang':
        return bool(result.get('hang'))
    if kind == 'livelock':
        return result.get('error') == 'steplimit'
    return any(v['prop'] == prop and v['kind'] == kind
               for v in result['violations'])


def shrink(pool, plan, prop, kind, budget_s=60):
    """Minimise plan['ops'] and plan['faults'] keeping the violation class"""
    deadline = time_real() + budget_s
    tried = 0

    def test_many(cands):
        """First candidate (in order) that still fails"""
        nonlocal tried
        done = {}
        cands = list(cands)
        idx = {id(c): i for i, c in enumerate(cands)}
        for p, r in pool.run_all(cands, deadline=deadline):
            tried += 1
            done[idx[id(p)]] = matches(r, prop, kind)
            for i in range(len(cands)):
                if i not in done:
                    break
                if done[i]:
                    return cands[i]
        for i, ok in sorted(done.items()):
            if ok:
                return cands[i]

    for key in ('faults', 'ops'):
        if not plan.get(key):
            continue
        n = 1
        while plan[key] and time_real() < deadline:
            items = plan[key]
            size = max(1, -(-len(items) // n))
            cands = []
            for i in range(0, len(items), size):
                c = dict(plan)
                c[key] = items[:i] + items[i + size:]
                cands.append(c)
            found = test_many(cands)
            if found is not None:
                plan = found
                n = max(1, n - 1) if size > 1 else n
                if len(plan[key]) < n:
                    n = max(1, len(plan[key]))
            else:
                if size == 1:
                    break
                n = min(len(items), n * 2)
    return plan, tried


def prepare():
    """Load code under test from /repo and install the seams"""
    sys.path[:0] = [p for p in (str(REPO / 'src_py'), str(VERIF))
                    if p not in sys.path]
    import hat.event.common  # NOQA
    core.patch()
    for name in ('hat.event.server.main_runner', 'hat.event.server.main',
                 'hat.event.eventer', 'hat.event.adminer',
                 'hat.event.component',
                 'hat.event.backends.lmdb', 'hat.event.backends.memory',
                 'hat.event.backends.dummy', 'hat.event.manager.main',
                 'hat.event.backends.lmdb.convert.main',
                 'hat.event.backends.lmdb.manager.main',
                 'hat.monitor.server.runner', 'hat.monitor.component',
                 'hat.drivers.chatter', 'hat.drivers.tcp'):
        try:
            importlib.import_module(name)
        except ImportError as e:
            print(f'import {name}: {e!r}', file=sys.stderr)
    core.patch_hashes()
    import hat.event
    path = pathlib.Path(hat.event.common.__file__).resolve()
    if REPO.resolve() not in path.parents:
        raise core.HarnessError(f'hat.event imported from {path}')
    gc.collect()
    gc.freeze()
