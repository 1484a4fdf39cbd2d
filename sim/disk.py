"""Simulated storage: real LMDB behind a proxy with fault injection.

The real `lmdb` library is used on files in a scratch directory.  Calls are
proxied, so that every storage call is a point at which the simulation can
preempt the calling thread, crash the process or fail the call.

Crash semantics: the file content at the moment of the crash survives, i.e.
committed transactions do and uncommitted ones don't.  If the code under test
disables syncing, commits since the last sync may be lost on power loss.
"""

import errno
import os
import shutil

import lmdb

from . import core


_Environment = lmdb.Environment
_Transaction = lmdb.Transaction
_Cursor = lmdb.Cursor


class Disk:

    def __init__(self, world, node):
        self.world = world
        self.node = node
        self.envs = []
        self.rng = world.rng(f'disk/{node.name}')
        self.op_count = 0
        self.kind_counts = {}
        self.triggers = []       # armed faults (dicts)
        self.fail = {}           # persistent failures: kind -> exception name
        self.old_envs = []
        self.gen = 0
        self.on_commit = None

    def arm(self, trigger):
        """Arm one-shot fault.

        trigger: {'on': kind, 'skip': n, 'do': 'crash'|'power'|'fail',
                  'err': name, 'count': n}
        """
        self.triggers.append(dict(trigger))

    def point(self, kind):
        """Storage operation `kind` is about to happen"""
        w = self.world
        job = w.job
        self.op_count += 1
        w.tick(kind.encode())
        for trig in self.triggers:
            on = trig['on']
            if on != 'any' and on != kind:
                continue
            if kind == 'close' and trig['do'] == 'fail':
                continue        # mdb_env_close can't fail
            if trig.get('proc') and trig['proc'] is not w.proc:
                continue
            if trig.get('skip', 0) > 0:
                trig['skip'] -= 1
                continue
            self.triggers.remove(trig)
            if trig['do'] in ('crash', 'power'):
                if job is None:
                    break
                w.faults[f'crash_in_{kind}'] += 1
                w.trace('crash-at', self.node.name, kind)
                cb = trig.get('cb')
                power = trig['do'] == 'power'
                w.after(0, cb or self.node.crash, power)
                job.park_forever()
            elif trig['do'] == 'fail':
                if trig.get('count', 1) > 1:
                    trig['count'] -= 1
                    self.triggers.append(trig)
                w.faults[f'disk_{trig["err"]}_{kind}'] += 1
                w.trace('disk-fail', self.node.name, kind, trig['err'])
                cb = trig.get('cb')
                if cb:
                    cb()
                raise _error(trig['err'])
            elif trig['do'] == 'slow':
                if job is None:
                    break
                w.faults['disk_slow'] += 1
                job.park(trig['dur'])
            break
        err = self.fail.get(kind)
        if err:
            w.faults[f'disk_{err}_{kind}'] += 1
            raise _error(err)
        if job is not None:
            job.point()

    def crash(self, power):
        """Replace files so that state survives and old handles are stale"""
        self.triggers.clear()
        envs, self.envs = self.envs, []
        for env in envs:
            env._crash(self, power)
            self.old_envs.append(env)

    def remove_env(self, env):
        if env in self.envs:
            self.envs.remove(env)


def _error(name):
    if name == 'mapfull':
        return lmdb.MapFullError('mdb_put: MDB_MAP_FULL: Environment mapsize '
                                 'limit reached')
    if name == 'enospc':
        return lmdb.Error('mdb_txn_commit: No space left on device')
    if name == 'eio':
        return lmdb.DiskError('mdb_txn_commit: Input/output error')
    if name == 'corrupted':
        return lmdb.CorruptedError('MDB_CORRUPTED')
    if name == 'oserror':
        return OSError(errno.ENOSPC, 'No space left on device')
    raise core.HarnessError(f'unknown error {name}')


def _unwrap(x):
    if isinstance(x, (SimTransaction, SimCursor, SimEnvironment)):
        return x._real
    return x


def _unwrap_all(args, kwargs):
    return ([_unwrap(a) for a in args],
            {k: _unwrap(v) for k, v in kwargs.items()})


class SimEnvironment:

    def __init__(self, path, *args, **kwargs):
        w = core.world
        self._path = str(path)
        self._disk = None
        self._nosync = (not kwargs.get('sync', True) or
                        not kwargs.get('metasync', True) or
                        (kwargs.get('writemap', False) and
                         kwargs.get('map_async', False)))
        self._synced = None
        if w is not None:
            if w.proc is None:
                raise core.HarnessError('storage used outside of process')
            self._disk = w.proc.node.disk
            self._proc = w.proc
            self._disk.point('open')
        if args:
            args = (min(args[0], 1 << 30), *args[1:])
        if 'map_size' in kwargs:
            kwargs['map_size'] = min(kwargs['map_size'], 1 << 30)
        # simulated processes share one OS process, where LMDB forbids opening
        # of the same file twice: reader of the file which another process
        # has opened uses that process' environment
        self._shared = kwargs.get('readonly', False) and self._find_shared()
        self._real = (self._shared._real if self._shared else
                      _Environment(self._path, *args, **kwargs))
        self._subdir = kwargs.get('subdir', True)
        if self._disk:
            self._disk.envs.append(self)
            try:
                self._disk.point('opened')
            except Exception:
                self.close()
                raise

    def _find_shared(self):
        if self._disk:
            for env in self._disk.envs:
                if env._path == self._path and env._proc is not self._proc:
                    return env

    @property
    def _file(self):
        return (os.path.join(self._path, 'data.mdb') if self._subdir
                else self._path)

    @property
    def _lock_file(self):
        return (os.path.join(self._path, 'lock.mdb') if self._subdir
                else self._path + '-lock')

    def _crash(self, disk, power):
        path = self._file
        if not os.path.exists(path) or self._shared:
            return
        tmp = path + '.crash'
        if power and self._nosync and self._synced is not None and (
                disk.rng.random() < 0.7):
            disk.world.faults['lost_unsynced_commits'] += 1
            with open(tmp, 'wb') as f:
                f.write(self._synced)
        else:
            shutil.copyfile(path, tmp)
        os.replace(tmp, path)
        try:
            os.unlink(self._lock_file)
        except FileNotFoundError:
            pass

    def _snapshot(self):
        try:
            with open(self._file, 'rb') as f:
                return f.read()
        except FileNotFoundError:
            return None

    def begin(self, *args, **kwargs):
        write = kwargs.get('write', args[2] if len(args) > 2 else False)
        if self._disk and core.world:
            self._disk.point('begin_write' if write else 'begin_read')
        if write and self._shared:
            raise lmdb.ReadonlyError('begin: Permission denied')
        a, k = _unwrap_all(args, kwargs)
        return SimTransaction(self, self._real.begin(*a, **k), bool(write))

    def open_db(self, *args, **kwargs):
        if self._disk and core.world:
            self._disk.point('open_db')
            if self._nosync and self._synced is None:
                self._synced = self._snapshot()
        a, k = _unwrap_all(args, kwargs)
        if self._shared:
            with self._real.begin() as txn:
                return self._real.open_db(a[0] if a else k['key'], txn=txn,
                                          create=False)
        return self._real.open_db(*a, **k)

    def sync(self, *args, **kwargs):
        if self._disk and core.world:
            self._disk.point('sync')
        result = self._real.sync(*args, **kwargs)
        if self._nosync:
            self._synced = self._snapshot()
        return result

    def close(self):
        if self._disk and core.world:
            try:
                self._disk.point('close')
            finally:
                self._disk.remove_env(self)
                if not self._shared:
                    self._real.close()
            return
        if self._shared:
            return
        return self._real.close()

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()

    def __getattr__(self, name):
        return getattr(self._real, name)


class SimTransaction:

    def __init__(self, env, real=None, write=None, *args, **kwargs):
        if real is None or not isinstance(real, _Transaction):
            # direct construction: lmdb.Transaction(env, ...)
            write = kwargs.get('write', False)
            real = _Transaction(_unwrap(env), **{
                k: _unwrap(v) for k, v in kwargs.items()})
        self._env = env
        self._real = real
        self._write = write
        self._failed = False

    def _point(self, kind):
        if self._failed:
            raise lmdb.BadTxnError('MDB_BAD_TXN')
        if self._env._disk and core.world:
            try:
                self._env._disk.point(kind)
            except lmdb.Error:
                if kind in ('put', 'delete'):
                    self._failed = True
                raise

    def cursor(self, *args, **kwargs):
        a, k = _unwrap_all(args, kwargs)
        return SimCursor(*a, txn=self, _real=self._real.cursor(*a, **k))

    def commit(self):
        if not self._write:
            return self._real.commit()
        try:
            self._point('commit')
        except lmdb.Error:
            self._real.abort()
            raise
        env = self._env
        if env._nosync and env._synced is None:
            env._synced = env._snapshot()
        self._real.commit()
        if env._disk and core.world:
            core.world.stats['commits'] += 1
            if env._disk.on_commit:
                env._disk.on_commit(env)
            env._disk.point('committed')

    def abort(self):
        return self._real.abort()

    def put(self, *args, **kwargs):
        self._point('put')
        return self._real.put(*args, **kwargs)

    def delete(self, *args, **kwargs):
        self._point('delete')
        return self._real.delete(*args, **kwargs)

    def pop(self, *args, **kwargs):
        self._point('delete')
        return self._real.pop(*args, **kwargs)

    def replace(self, *args, **kwargs):
        self._point('put')
        return self._real.replace(*args, **kwargs)

    def drop(self, *args, **kwargs):
        self._point('delete')
        return self._real.drop(*args, **kwargs)

    def get(self, *args, **kwargs):
        self._point('read')
        return self._real.get(*args, **kwargs)

    def __enter__(self):
        return self

    def __exit__(self, exc_type, exc, tb):
        if exc_type is None:
            self.commit()
        else:
            self.abort()

    def __getattr__(self, name):
        return getattr(self._real, name)


_READS = {'get', 'set_key', 'set_range', 'first', 'last', 'next', 'prev',
          'next_dup', 'next_nodup', 'prev_dup', 'prev_nodup', 'first_dup',
          'last_dup', 'getmulti', 'set_key_dup', 'set_range_dup'}
_PUTS = {'put', 'putmulti', 'replace'}
_DELS = {'delete', 'pop'}


class SimCursor:

    def __init__(self, db=None, txn=None, _real=None):
        if _real is None:
            _real = _Cursor(db, _unwrap(txn))
        self._txn = txn
        self._real = _real

    def __getattr__(self, name):
        attr = getattr(self._real, name)
        if name in _READS:
            kind = 'read'
        elif name in _PUTS:
            kind = 'put'
        elif name in _DELS:
            kind = 'delete'
        elif name in ('iternext', 'iterprev', 'iternext_nodup',
                      'iternext_dup'):
            def it(*args, **kwargs):
                return self._iter(attr(*args, **kwargs))
            return it
        else:
            return attr
        point = self._txn._point

        def call(*args, **kwargs):
            point(kind)
            return attr(*args, **kwargs)

        self.__dict__[name] = call
        return call

    def _iter(self, it):
        point = self._txn._point
        for i in it:
            point('read')
            yield i

    def __iter__(self):
        return self._iter(iter(self._real))

    def __enter__(self):
        self._real.__enter__()
        return self

    def __exit__(self, *args):
        return self._real.__exit__(*args)


def patch():
    lmdb.Environment = SimEnvironment
    lmdb.open = SimEnvironment
    lmdb.Transaction = SimTransaction
    lmdb.Cursor = SimCursor
