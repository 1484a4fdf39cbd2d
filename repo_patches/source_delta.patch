From aae761a7eeb0aedc5e92361082aa3578cd397aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:24 +0000
Subject: [PATCH 01/27] fix: create all lmdb databases in single transaction

Crash during creation of new database left environment with only part of
databases, which could not be opened any more.
---
 src_py/hat/event/backends/lmdb/common.py      |  5 +++--
 src_py/hat/event/backends/lmdb/environment.py | 17 +++++++++++------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src_py/hat/event/backends/lmdb/common.py b/src_py/hat/event/backends/lmdb/common.py
index 1e9aa78..eff866e 100644
--- a/src_py/hat/event/backends/lmdb/common.py
+++ b/src_py/hat/event/backends/lmdb/common.py
@@ -156,9 +156,10 @@ def ext_create_env(path: Path,
 
 def ext_open_db(env: lmdb.Environment,
                 db_type: DbType,
-                create: bool = True
+                create: bool = True,
+                txn: lmdb.Transaction | None = None
                 ) -> lmdb._Database:
-    return env.open_db(db_type.name.encode('utf-8'), create=create)
+    return env.open_db(db_type.name.encode('utf-8'), txn=txn, create=create)
 
 
 def _encode_uint(value):
diff --git a/src_py/hat/event/backends/lmdb/environment.py b/src_py/hat/event/backends/lmdb/environment.py
index a17c1b1..759242d 100644
--- a/src_py/hat/event/backends/lmdb/environment.py
+++ b/src_py/hat/event/backends/lmdb/environment.py
@@ -90,11 +90,16 @@ class Environment(aio.Resource):
         await self._executor.async_close()
 
     def _ext_init(self, db_path, max_size):
-        create = not db_path.exists()
-
         self._env = common.ext_create_env(path=db_path,
                                           max_size=max_size)
-        self._dbs = {db_type: common.ext_open_db(env=self._env,
-                                                 db_type=db_type,
-                                                 create=create)
-                     for db_type in common.DbType}
+
+        # all databases are created in single transaction - environment
+        # without databases is result of interrupted creation
+        create = not self._env.stat()['entries']
+
+        with self._env.begin(write=True) as txn:
+            self._dbs = {db_type: common.ext_open_db(env=self._env,
+                                                     db_type=db_type,
+                                                     create=create,
+                                                     txn=txn)
+                         for db_type in common.DbType}
-- 
2.43.0


From cc38072f3db46ce382cd1d092fca345be7df387c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:49 +0000
Subject: [PATCH 02/27] fix: don't write newer changes after failed flush

Closing of lmdb backend, initiated by failed flush, could write changes
registered during failed flush, leaving hole in persisted history.
---
 src_py/hat/event/backends/lmdb/backend.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src_py/hat/event/backends/lmdb/backend.py b/src_py/hat/event/backends/lmdb/backend.py
index edad17f..16a6f6e 100644
--- a/src_py/hat/event/backends/lmdb/backend.py
+++ b/src_py/hat/event/backends/lmdb/backend.py
@@ -59,6 +59,7 @@ async def create(conf: json.Data,
     backend._flush_queue = aio.Queue(flush_queue_size)
     backend._registered_count = 0
     backend._registered_queue = collections.deque()
+    backend._flush_failed = False
     backend._async_group = aio.Group()
 
     backend._env = await environment.create(Path(conf['db_path']))
@@ -292,6 +293,11 @@ class LmdbBackend(common.Backend):
         if not self._env.is_open:
             return
 
+        # changes of failed flush are lost - writing of newer changes would
+        # leave incomplete history
+        if self._flush_failed:
+            return
+
         self._registered_count = 0
         registered_queue, self._registered_queue = (self._registered_queue,
                                                     collections.deque())
@@ -305,7 +311,12 @@ class LmdbBackend(common.Backend):
         #      (timeseries and ref must write changes before new queries are
         #      allowed)
 
-        await self._env.execute(_ext_flush, self._env, self._dbs, changes)
+        try:
+            await self._env.execute(_ext_flush, self._env, self._dbs, changes)
+
+        except BaseException:
+            self._flush_failed = True
+            raise
 
         if not self._flushed_events_cb:
             return
-- 
2.43.0


From 9a13f284635f057e0b95e4e1cd339446f268bc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:06 +0000
Subject: [PATCH 03/27] fix: don't modify timeseries changes while they are
 written

Querying of partition without unwritten changes inserted new entry into
changes which could be iterated by executor's thread (flush).
---
 src_py/hat/event/backends/lmdb/timeseriesdb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src_py/hat/event/backends/lmdb/timeseriesdb.py b/src_py/hat/event/backends/lmdb/timeseriesdb.py
index 0d2210c..70c1754 100644
--- a/src_py/hat/event/backends/lmdb/timeseriesdb.py
+++ b/src_py/hat/event/backends/lmdb/timeseriesdb.py
@@ -162,7 +162,7 @@ class TimeseriesDb:
 
         if params.order == common.Order.DESCENDING:
             events.extend(_query_partition_changes(
-                changes[partition_id], params, filter))
+                changes.get(partition_id, ()), params, filter))
 
             if not filter.done:
                 events.extend(await self._env.execute(
@@ -176,7 +176,7 @@ class TimeseriesDb:
 
             if not filter.done:
                 events.extend(_query_partition_changes(
-                    changes[partition_id], params, filter))
+                    changes.get(partition_id, ()), params, filter))
 
         else:
             raise ValueError('unsupported order')
-- 
2.43.0


From e6d75e8f2a53446b44fdbb7de57c56700dfa4574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:37 +0000
Subject: [PATCH 04/27] fix: merge unwritten and written events in timeseries
 query order

Unwritten events are not registered in order of source timestamp, events of
different servers are not registered in order of timestamp, and written events
can be newer than unwritten ones.
---
 .../hat/event/backends/lmdb/timeseriesdb.py   | 56 +++++++++----------
 1 file changed, 26 insertions(+), 30 deletions(-)

diff --git a/src_py/hat/event/backends/lmdb/timeseriesdb.py b/src_py/hat/event/backends/lmdb/timeseriesdb.py
index 70c1754..ca2a16f 100644
--- a/src_py/hat/event/backends/lmdb/timeseriesdb.py
+++ b/src_py/hat/event/backends/lmdb/timeseriesdb.py
@@ -1,6 +1,8 @@
 from collections.abc import Iterable
+import bisect
 import collections
 import functools
+import heapq
 import itertools
 import typing
 
@@ -11,9 +13,10 @@ from hat.event.backends.lmdb import environment
 from hat.event.backends.lmdb.conditions import Conditions
 
 
+# partition changes are ordered by timestamp and event id (same as database)
 Changes: typing.TypeAlias = dict[common.PartitionId,
-                                 collections.deque[tuple[common.Timestamp,
-                                                         common.Event]]]
+                                 list[tuple[common.Timestamp,
+                                            common.Event]]]
 
 
 class Limit(typing.NamedTuple):
@@ -40,7 +43,7 @@ def ext_create(env: environment.Environment,
     db._env = env
     db._conditions = conditions
     db._max_results = max_results
-    db._changes = collections.defaultdict(collections.deque)
+    db._changes = collections.defaultdict(list)
     db._event_type_partitions = {}  # type: dict[common.EventType, Collection[tuple[common.PartitionId, Partition]]]  # NOQA
 
     # depending on dict order
@@ -77,7 +80,8 @@ class TimeseriesDb:
             else:
                 raise ValueError('unsupported order by')
 
-            self._changes[partition_id].append((timestamp, event))
+            bisect.insort(self._changes[partition_id], (timestamp, event),
+                          key=lambda i: (i[0], i[1].id))
 
             yield common.TimeseriesEventRef(
                 (partition_id, timestamp, event.id))
@@ -109,7 +113,7 @@ class TimeseriesDb:
 
     def create_changes(self) -> Changes:
         changes, self._changes = (self._changes,
-                                  collections.defaultdict(collections.deque))
+                                  collections.defaultdict(list))
         return changes
 
     def ext_write(self,
@@ -149,9 +153,6 @@ class TimeseriesDb:
 
     async def _query_partition(self, partition_id, params, subscription,
                                max_results):
-        events = collections.deque()
-        changes = self._changes
-
         filter = _Filter(subscription=subscription,
                          t_from=params.t_from,
                          t_to=params.t_to,
@@ -160,26 +161,12 @@ class TimeseriesDb:
                          max_results=max_results + 1,
                          last_event_id=params.last_event_id)
 
-        if params.order == common.Order.DESCENDING:
-            events.extend(_query_partition_changes(
-                changes.get(partition_id, ()), params, filter))
-
-            if not filter.done:
-                events.extend(await self._env.execute(
-                    _ext_query_partition_events, self._env, self._conditions,
-                    partition_id, params, filter))
-
-        elif params.order == common.Order.ASCENDING:
-            events.extend(await self._env.execute(
-                _ext_query_partition_events, self._env, self._conditions,
-                partition_id, params, filter))
+        changes = collections.deque(_query_partition_changes(
+            self._changes.get(partition_id, []), params))
 
-            if not filter.done:
-                events.extend(_query_partition_changes(
-                    changes.get(partition_id, ()), params, filter))
-
-        else:
-            raise ValueError('unsupported order')
+        events = await self._env.execute(
+            _ext_query_partition_events, self._env, self._conditions,
+            partition_id, params, filter, changes)
 
         more_follows = len(events) > max_results
         while len(events) > max_results:
@@ -227,7 +214,7 @@ def _ext_init_partitions(env, txn, partitions):
 
 
 def _ext_query_partition_events(env, conditions, partition_id, params,
-                                filter):
+                                filter, changes):
     if params.order_by == common.OrderBy.TIMESTAMP:
         events = _ext_query_partition_events_range(
             env, partition_id, params.t_from, params.t_to, params.order)
@@ -240,7 +227,16 @@ def _ext_query_partition_events(env, conditions, partition_id, params,
     else:
         raise ValueError('unsupported order by')
 
+    def key(event):
+        if params.order_by == common.OrderBy.TIMESTAMP:
+            return event.timestamp, event.id
+
+        return event.source_timestamp, event.id
+
     events = (event for event in events if conditions.matches(event))
+    events = heapq.merge(events, changes,
+                         key=key,
+                         reverse=params.order == common.Order.DESCENDING)
     events = filter.process(events)
     return collections.deque(events)
 
@@ -393,7 +389,7 @@ def _ext_cleanup_partition(env, txn, now, partition_id, limit, max_results):
                                  entries_count - result_count)
 
 
-def _query_partition_changes(changes, params, filter):
+def _query_partition_changes(changes, params):
     if params.order == common.Order.DESCENDING:
         events = (event for _, event in reversed(changes))
 
@@ -451,7 +447,7 @@ def _query_partition_changes(changes, params, filter):
     else:
         raise ValueError('unsupported order')
 
-    return filter.process(events)
+    return events
 
 
 class _Filter:
-- 
2.43.0


From aca86de0805476160e749ac9c7dd083f4e706fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:10 +0000
Subject: [PATCH 05/27] fix: reject register events which can't be encoded

---
 src_py/hat/event/common/encoder.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src_py/hat/event/common/encoder.py b/src_py/hat/event/common/encoder.py
index 6ead782..d4794d7 100644
--- a/src_py/hat/event/common/encoder.py
+++ b/src_py/hat/event/common/encoder.py
@@ -165,13 +165,27 @@ def register_event_to_sbs(event: RegisterEvent) -> sbs.Data:
 
 
 def register_event_from_sbs(data: sbs.Data) -> RegisterEvent:
-    """Create RegisterEvent based on SBS data"""
-    return RegisterEvent(
+    """Create RegisterEvent based on SBS data
+
+    Data which can not be encoded again (e.g. timestamp out of range or JSON
+    number which is not finite) is rejected - otherwise, error would occur only
+    once event is notified or written to storage.
+
+    """
+    event = RegisterEvent(
         type=tuple(data['type']),
         source_timestamp=_optional_from_sbs(data['sourceTimestamp'],
                                             timestamp_from_sbs),
         payload=_optional_from_sbs(data['payload'], event_payload_from_sbs))
 
+    if event.source_timestamp is not None:
+        timestamp_to_bytes(event.source_timestamp)
+
+    if isinstance(event.payload, EventPayloadJson):
+        json.encode(event.payload.data)
+
+    return event
+
 
 def query_params_to_sbs(params: QueryParams) -> sbs.Data:
     """Convert QueryParams to SBS data"""
-- 
2.43.0


From 0fd71bb0f8e4acafb6362650e83701650a040073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:30 +0000
Subject: [PATCH 06/27] fix: close connections which can't be notified

---
 src_py/hat/event/eventer/server.py | 34 ++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src_py/hat/event/eventer/server.py b/src_py/hat/event/eventer/server.py
index 2b989dd..d3b4419 100644
--- a/src_py/hat/event/eventer/server.py
+++ b/src_py/hat/event/eventer/server.py
@@ -51,9 +51,15 @@ async def listen(addr: tcp.Address,
                  register_cb: RegisterCb | None = None,
                  query_cb: QueryCb | None = None,
                  close_timeout: float = 0.5,
+                 notify_timeout: float = 20,
                  **kwargs
                  ) -> 'Server':
-    """Create listening Eventer Server instance"""
+    """Create listening Eventer Server instance
+
+    If notification can not be sent for `notify_timeout` seconds (client
+    doesn't receive messages), connection is closed.
+
+    """
     server = Server()
     server._status = status
     server._connected_cb = connected_cb
@@ -61,6 +67,7 @@ async def listen(addr: tcp.Address,
     server._register_cb = register_cb
     server._query_cb = query_cb
     server._close_timeout = close_timeout
+    server._notify_timeout = notify_timeout
     server._loop = asyncio.get_running_loop()
     server._next_conn_ids = itertools.count(1)
     server._conn_infos = {}
@@ -247,10 +254,25 @@ class Server(aio.Resource):
         await common.send_msg(conn, 'HatEventer.MsgQueryRes', res_data,
                               conv=req.conv)
 
+    async def _send_notify(self, conn, msg_type, msg_data, **kwargs):
+        # while connection's send queue is full, sending is blocked together
+        # with connection's ping, so unresponsive client is not detected
+        handle = self._loop.call_later(self._notify_timeout, conn.close)
+
+        try:
+            return await common.send_msg(conn, msg_type, msg_data, **kwargs)
+
+        except aio.QueueClosedError:
+            raise ConnectionError()
+
+        finally:
+            handle.cancel()
+
     async def _notify_status(self, conn):
         try:
             msg_data = common.status_to_sbs(self._status)
-            await common.send_msg(conn, 'HatEventer.MsgStatusNotify', msg_data)
+            await self._send_notify(conn, 'HatEventer.MsgStatusNotify',
+                                    msg_data)
 
         except ConnectionError:
             pass
@@ -261,10 +283,10 @@ class Server(aio.Resource):
     async def _notify_events(self, conn, events, with_ack):
         try:
             msg_data = [common.event_to_sbs(event) for event in events]
-            conv = await common.send_msg(conn,
-                                         'HatEventer.MsgEventsNotify',
-                                         msg_data,
-                                         last=not with_ack)
+            conv = await self._send_notify(conn,
+                                           'HatEventer.MsgEventsNotify',
+                                           msg_data,
+                                           last=not with_ack)
 
             if not with_ack:
                 return
-- 
2.43.0


From 3bf3851689824c95d04a31616a84e65ea6f4728a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:23 +0000
Subject: [PATCH 07/27] fix: notify events registered while engine is closing

---
 src_py/hat/event/server/engine.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src_py/hat/event/server/engine.py b/src_py/hat/event/server/engine.py
index f7d779c..fb7ee5a 100644
--- a/src_py/hat/event/server/engine.py
+++ b/src_py/hat/event/server/engine.py
@@ -122,7 +122,10 @@ class Engine(common.Engine):
                 events = await self._process_sessions(source, register_events)
 
                 mlog.debug("registering to backend")
-                events = await self._backend.register(events)
+                # registered events have to be notified even if engine is
+                # closing
+                events = await aio.uncancellable(
+                    self._backend.register(events))
 
                 if future.done():
                     continue
-- 
2.43.0


From 49890fdf2b3d5214161584686326725d7193714f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:49 +0000
Subject: [PATCH 08/27] fix: closing of one connection doesn't end waiting for
 acks of others

---
 src_py/hat/event/eventer/server.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src_py/hat/event/eventer/server.py b/src_py/hat/event/eventer/server.py
index d3b4419..2fe5ca7 100644
--- a/src_py/hat/event/eventer/server.py
+++ b/src_py/hat/event/eventer/server.py
@@ -209,8 +209,8 @@ class Server(aio.Resource):
             conn.close()
             self._conn_infos.pop(conn, None)
 
-            for future in self._conn_conv_futures.values():
-                if not future.done():
+            for (i, _), future in self._conn_conv_futures.items():
+                if i is conn and not future.done():
                     future.set_exception(ConnectionError())
 
             if self._disconnected_cb and info:
-- 
2.43.0


From df69eda87a7953ca5de5cef5e19673a548c8d41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:49 +0000
Subject: [PATCH 09/27] fix: event server doesn't connect to itself

---
 src_py/hat/event/server/eventer_client_runner.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src_py/hat/event/server/eventer_client_runner.py b/src_py/hat/event/server/eventer_client_runner.py
index bb6da84..063f640 100644
--- a/src_py/hat/event/server/eventer_client_runner.py
+++ b/src_py/hat/event/server/eventer_client_runner.py
@@ -64,6 +64,7 @@ class EventerClientRunner(aio.Resource):
     def set_monitor_state(self, state: hat.monitor.component.State):
         self._valid_server_data = set(_get_eventer_server_data(
             group=self._conf['monitor_component']['group'],
+            local_server_id=self._conf['server_id'],
             server_token=self._conf.get('server_token'),
             state=state))
 
@@ -133,7 +134,7 @@ class EventerClientRunner(aio.Resource):
         self._remote_active_cbs.notify(remote_active)
 
 
-def _get_eventer_server_data(group, server_token, state):
+def _get_eventer_server_data(group, local_server_id, server_token, state):
     for info in state.components:
         if info == state.info or info.group != group:
             continue
@@ -148,6 +149,10 @@ def _get_eventer_server_data(group, server_token, state):
                 not isinstance(token, (str, types.NoneType))):
             continue
 
+        # record of previous connection to monitor server
+        if server_id == local_server_id:
+            continue
+
         if server_token is not None and token != server_token:
             continue
 
-- 
2.43.0


From 6efddae28764cd58f069793c47b1834f1d16bbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:06 +0000
Subject: [PATCH 10/27] fix: component keeps connecting when connection closes
 while runner is being created

---
 src_py/hat/event/component.py | 45 ++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/src_py/hat/event/component.py b/src_py/hat/event/component.py
index 7526480..9ebcdeb 100644
--- a/src_py/hat/event/component.py
+++ b/src_py/hat/event/component.py
@@ -248,27 +248,34 @@ class Component(aio.Resource):
 
                 try:
                     mlog.debug("connected to server")
-                    runner = await client.async_group.spawn(
+                    runner_task = client.async_group.spawn(
                         aio.call, self._runner_cb, self, server_data, client)
 
                     try:
-                        async with async_group.create_subgroup() as subgroup:
-                            client_closing_task = subgroup.spawn(
-                                client.wait_closing)
-                            runner_closing_task = subgroup.spawn(
-                                runner.wait_closing)
+                        # doesn't cancel or discard result of runner_task
+                        await asyncio.wait([runner_task])
 
-                            await asyncio.wait(
-                                [client_closing_task, runner_closing_task],
-                                return_when=asyncio.FIRST_COMPLETED)
+                        # closing of client cancels runner_task
+                        if not runner_task.cancelled():
+                            runner = runner_task.result()
 
-                            if (runner_closing_task.done() and
-                                    not client_closing_task.done()):
-                                self.close()
-                                return
+                            async with async_group.create_subgroup() as subgroup:  # NOQA
+                                client_closing_task = subgroup.spawn(
+                                    client.wait_closing)
+                                runner_closing_task = subgroup.spawn(
+                                    runner.wait_closing)
+
+                                await asyncio.wait(
+                                    [client_closing_task, runner_closing_task],
+                                    return_when=asyncio.FIRST_COMPLETED)
+
+                                if (runner_closing_task.done() and
+                                        not client_closing_task.done()):
+                                    self.close()
+                                    return
 
                     finally:
-                        await aio.uncancellable(runner.async_close())
+                        await aio.uncancellable(_close_runner(runner_task))
 
                 finally:
                     await aio.uncancellable(client.async_close())
@@ -282,3 +289,13 @@ class Component(aio.Resource):
 
         finally:
             async_group.close()
+
+
+async def _close_runner(runner_task):
+    runner_task.cancel()
+    await asyncio.wait([runner_task])
+
+    if runner_task.cancelled() or runner_task.exception():
+        return
+
+    await runner_task.result().async_close()
-- 
2.43.0


From ca3e6522a66060d900f84046c1f2404356b5690e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:51 +0000
Subject: [PATCH 11/27] fix: close engine before connections to remote and
 monitor servers

---
 src_py/hat/event/server/main_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_py/hat/event/server/main_runner.py b/src_py/hat/event/server/main_runner.py
index d3fe1d9..7eaa9dd 100644
--- a/src_py/hat/event/server/main_runner.py
+++ b/src_py/hat/event/server/main_runner.py
@@ -144,7 +144,7 @@ class MainRunner(aio.Resource):
             _bind_resource(self.async_group, self._engine_runner)
 
     async def _stop(self):
-        if self._engine_runner and not self._monitor_component:
+        if self._engine_runner:
             await self._engine_runner.async_close()
 
         if self._eventer_client_runner:
-- 
2.43.0


From 70bcc1103c35d4fa1386c12509e49e1e64b553f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:28 +0000
Subject: [PATCH 12/27] fix: close runner which is created while component is
 closing connection

---
 src_py/hat/event/component.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src_py/hat/event/component.py b/src_py/hat/event/component.py
index 9ebcdeb..67c4fb9 100644
--- a/src_py/hat/event/component.py
+++ b/src_py/hat/event/component.py
@@ -275,7 +275,8 @@ class Component(aio.Resource):
                                     return
 
                     finally:
-                        await aio.uncancellable(_close_runner(runner_task))
+                        await aio.uncancellable(
+                            _close_runner(client, runner_task))
 
                 finally:
                     await aio.uncancellable(client.async_close())
@@ -291,9 +292,11 @@ class Component(aio.Resource):
             async_group.close()
 
 
-async def _close_runner(runner_task):
-    runner_task.cancel()
-    await asyncio.wait([runner_task])
+async def _close_runner(client, runner_task):
+    # runner_task is shielded - it is cancelled only by closing of client
+    if not runner_task.done():
+        client.close()
+        await asyncio.wait([runner_task])
 
     if runner_task.cancelled() or runner_task.exception():
         return
-- 
2.43.0


From 4c6b3db9f6d1b2b44dacd89025b2021997b0f666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:51 +0000
Subject: [PATCH 13/27] fix: response to cancelled adminer request doesn't
 close connection

---
 src_py/hat/event/adminer/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_py/hat/event/adminer/client.py b/src_py/hat/event/adminer/client.py
index 1077b7e..b27225e 100644
--- a/src_py/hat/event/adminer/client.py
+++ b/src_py/hat/event/adminer/client.py
@@ -99,7 +99,7 @@ class Client(aio.Resource):
                 res_msg_type, future = self._conv_msg_type_futures.get(
                     msg.conv, (None, None))
                 if not future or future.done():
-                    return
+                    continue
 
                 if res_msg_type != msg_type:
                     raise Exception('invalid response message type')
-- 
2.43.0


From c05f6eeeb7cdd03118cc1b626267f32e16a09baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:05 +0000
Subject: [PATCH 14/27] fix: last event id of memory backend

---
 src_py/hat/event/backends/memory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src_py/hat/event/backends/memory.py b/src_py/hat/event/backends/memory.py
index 464ccbe..7619e77 100644
--- a/src_py/hat/event/backends/memory.py
+++ b/src_py/hat/event/backends/memory.py
@@ -24,8 +24,8 @@ class MemoryBackend(common.Backend):
         return self._async_group
 
     async def get_last_event_id(self, server_id):
-        event_ids = (e.event_id for e in self._events
-                     if e.server == server_id)
+        event_ids = (e.id for e in self._events
+                     if e.id.server == server_id)
         default = common.EventId(server=server_id, session=0, instance=0)
         return max(event_ids, default=default)
 
-- 
2.43.0


From 8afb740a3d2279e979f05bdac9e2caf7e5a030ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:05 +0000
Subject: [PATCH 15/27] fix: timeseries query of memory backend

---
 src_py/hat/event/backends/memory.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src_py/hat/event/backends/memory.py b/src_py/hat/event/backends/memory.py
index 7619e77..8b3d482 100644
--- a/src_py/hat/event/backends/memory.py
+++ b/src_py/hat/event/backends/memory.py
@@ -89,9 +89,10 @@ class MemoryBackend(common.Backend):
             events = _filter_source_t_to(events, params.source_t_to)
 
         if params.order_by == common.OrderBy.TIMESTAMP:
-            sort_key = lambda event: event.timestamp, event  # NOQA
+            sort_key = lambda event: (event.timestamp, event.id)  # NOQA
         elif params.order_by == common.OrderBy.SOURCE_TIMESTAMP:
-            sort_key = lambda event: event.source_timestamp, event  # NOQA
+            sort_key = lambda event: (event.source_timestamp, event.id)  # NOQA
+            events = _filter_source_timestamp(events)
         else:
             raise ValueError('invalid order by')
 
@@ -160,14 +161,20 @@ def _filter_t_to(events, t_to):
             yield event
 
 
-def _filter_source_t_from(events, source_t_from):
+def _filter_source_timestamp(events):
     for event in events:
+        if event.source_timestamp is not None:
+            yield event
+
+
+def _filter_source_t_from(events, source_t_from):
+    for event in _filter_source_timestamp(events):
         if event.source_timestamp >= source_t_from:
             yield event
 
 
 def _filter_source_t_to(events, source_t_to):
-    for event in events:
+    for event in _filter_source_timestamp(events):
         if event.source_timestamp <= source_t_to:
             yield event
 
-- 
2.43.0


From cad5de6236296b9a91ded0a59fe725776c164ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:05 +0000
Subject: [PATCH 16/27] fix: server query of memory backend

---
 src_py/hat/event/backends/memory.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src_py/hat/event/backends/memory.py b/src_py/hat/event/backends/memory.py
index 8b3d482..031afcb 100644
--- a/src_py/hat/event/backends/memory.py
+++ b/src_py/hat/event/backends/memory.py
@@ -121,13 +121,12 @@ class MemoryBackend(common.Backend):
                                   more_follows=more_follows)
 
     def _query_server(self, params):
-        events = sorted(_filter_server_id(self._events, params.server_id))
+        events = sorted(_filter_server_id(self._events, params.server_id),
+                        key=lambda event: event.id)
 
-        if params.last_event_id and events:
-            for i, event in enumerate(events):
-                if event.id > params.last_event_id:
-                    break
-            events = events[i:]
+        if params.last_event_id:
+            events = [event for event in events
+                      if event.id > params.last_event_id]
 
         if params.max_results is not None and len(events) > params.max_results:
             more_follows = True
@@ -181,5 +180,5 @@ def _filter_source_t_to(events, source_t_to):
 
 def _filter_server_id(events, server_id):
     for event in events:
-        if event.event_id.server == server_id:
+        if event.id.server == server_id:
             yield event
-- 
2.43.0


From 490dcbe95022a83d65dfbf96e2ca5623f65b86e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:57 +0000
Subject: [PATCH 17/27] fix: don't create engine while main runner is closing

---
 src_py/hat/event/server/main_runner.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src_py/hat/event/server/main_runner.py b/src_py/hat/event/server/main_runner.py
index 7eaa9dd..1072eb1 100644
--- a/src_py/hat/event/server/main_runner.py
+++ b/src_py/hat/event/server/main_runner.py
@@ -166,6 +166,9 @@ class MainRunner(aio.Resource):
             await self._backend.async_close()
 
     def _create_monitor_runner(self, monitor_component):
+        if not self.is_open:
+            raise Exception('main runner closed')
+
         mlog.debug("creating engine runner")
         self._engine_runner = EngineRunner(
             conf=self._conf,
-- 
2.43.0


From c4bcb6617f588a1ad7056c0ffa41363173d8707f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:33 +0000
Subject: [PATCH 18/27] fix: notify events received while eventer client is
 closing

---
 src_py/hat/event/server/eventer_client.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src_py/hat/event/server/eventer_client.py b/src_py/hat/event/server/eventer_client.py
index a65c6ea..1cf65ea 100644
--- a/src_py/hat/event/server/eventer_client.py
+++ b/src_py/hat/event/server/eventer_client.py
@@ -118,7 +118,7 @@ class EventerClient(aio.Resource):
             self._events_queue.append(events)
             return
 
-        await self._backend.register(events)
+        await self._register(events)
 
     async def _synchronize(self):
         mlog.debug("starting synchronization")
@@ -158,10 +158,10 @@ class EventerClient(aio.Resource):
                     while events[0].id.session == session_id:
                         session_events.append(events.popleft())
 
-                    await self._backend.register(session_events)
+                    await self._register(session_events)
 
             if events:
-                await self._backend.register(events)
+                await self._register(events)
 
             mlog.debug("processing cached notify events")
             while self._events_queue:
@@ -170,7 +170,7 @@ class EventerClient(aio.Resource):
                 if not events:
                     continue
 
-                await self._backend.register(events)
+                await self._register(events)
 
             self._events_queue = None
 
@@ -185,6 +185,10 @@ class EventerClient(aio.Resource):
             mlog.error("synchronization error: %s", e, exc_info=e)
             self.close()
 
+    async def _register(self, events):
+        # registered events have to be notified even if client is closing
+        await aio.uncancellable(self._backend.register(events))
+
     async def _set_synced(self, state, count):
         self._synced = state
 
-- 
2.43.0


From ab830b10b32c8ced076f666e6438362a39a2a0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:50 +0000
Subject: [PATCH 19/27] fix: v0.6 conversion keeps last event id of each server

---
 .../lmdb/convert/convert_v06_to_v07.py         | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src_py/hat/event/backends/lmdb/convert/convert_v06_to_v07.py b/src_py/hat/event/backends/lmdb/convert/convert_v06_to_v07.py
index 0c7865e..87bd1f5 100644
--- a/src_py/hat/event/backends/lmdb/convert/convert_v06_to_v07.py
+++ b/src_py/hat/event/backends/lmdb/convert/convert_v06_to_v07.py
@@ -37,7 +37,7 @@ def _convert_latest(src_env, dst_env, dst_system_db, dst_ref_db, server_id):
     dst_latest_data_db = v07.open_db(dst_env, v07.DbType.LATEST_DATA)
     dst_latest_type_db = v07.open_db(dst_env, v07.DbType.LATEST_TYPE)
 
-    latest_event = None
+    latest_events = {}
     next_event_type_ref = itertools.count(1)
 
     with src_env.begin(db=src_latest_db, buffers=True) as src_txn:
@@ -45,8 +45,9 @@ def _convert_latest(src_env, dst_env, dst_system_db, dst_ref_db, server_id):
             src_event = v06.decode_event(src_encoded_value)
             dst_event = _convert_event(src_event, server_id)
 
+            latest_event = latest_events.get(dst_event.event_id.server)
             if not latest_event or latest_event.event_id < dst_event.event_id:
-                latest_event = dst_event
+                latest_events[dst_event.event_id.server] = dst_event
 
             event_type_ref = next(next_event_type_ref)
 
@@ -69,10 +70,10 @@ def _convert_latest(src_env, dst_env, dst_system_db, dst_ref_db, server_id):
                            dst_event=dst_event,
                            event_ref=v07.LatestEventRef(event_type_ref))
 
-    if latest_event:
+    for latest_event in latest_events.values():
         _update_system_db(dst_env=dst_env,
                           dst_system_db=dst_system_db,
-                          server_id=server_id,
+                          server_id=latest_event.event_id.server,
                           latest_event=latest_event)
 
 
@@ -86,7 +87,7 @@ def _convert_ordered(src_env, dst_env, dst_system_db, dst_ref_db, server_id):
         dst_env, v07.DbType.ORDERED_PARTITION)
     dst_ordered_count_db = v07.open_db(dst_env, v07.DbType.ORDERED_COUNT)
 
-    latest_event = None
+    latest_events = {}
 
     with src_env.begin(db=src_ordered_data_db, buffers=True) as src_txn:
         for src_encoded_key, src_encoded_value in src_txn.cursor():
@@ -96,8 +97,9 @@ def _convert_ordered(src_env, dst_env, dst_system_db, dst_ref_db, server_id):
             dst_timestamp = _convert_timestamp(src_timestamp)
             dst_event = _convert_event(src_event, server_id)
 
+            latest_event = latest_events.get(dst_event.event_id.server)
             if not latest_event or latest_event.event_id < dst_event.event_id:
-                latest_event = dst_event
+                latest_events[dst_event.event_id.server] = dst_event
 
             dst_key = partition_id, dst_timestamp, dst_event.event_id
 
@@ -113,10 +115,10 @@ def _convert_ordered(src_env, dst_env, dst_system_db, dst_ref_db, server_id):
                            dst_event=dst_event,
                            event_ref=v07.OrderedEventRef(dst_key))
 
-    if latest_event:
+    for latest_event in latest_events.values():
         _update_system_db(dst_env=dst_env,
                           dst_system_db=dst_system_db,
-                          server_id=server_id,
+                          server_id=latest_event.event_id.server,
                           latest_event=latest_event)
 
     with src_env.begin(db=src_ordered_partition_db, buffers=True) as src_txn:
-- 
2.43.0


From 22d2e780f65d248ffb6922a1340f02e4746b4dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:50 +0000
Subject: [PATCH 20/27] fix: lmdb manager latest and ref queries

---
 src_py/hat/event/backends/lmdb/manager/query.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src_py/hat/event/backends/lmdb/manager/query.py b/src_py/hat/event/backends/lmdb/manager/query.py
index f2e7764..a13cd8f 100644
--- a/src_py/hat/event/backends/lmdb/manager/query.py
+++ b/src_py/hat/event/backends/lmdb/manager/query.py
@@ -57,13 +57,13 @@ def query(args):
                     _print_result(result)
 
             elif args.subaction == 'ref':
-                for result in _query_ref(dbs, txn):
+                for result in _query_ref(dbs, txn, args.server_id):
                     _print_result(result)
 
             elif args.subaction == 'latest':
                 event_types = ([tuple(i.split('/')) for i in args.event_types]
                                if args.event_types is not None else None)
-                for result in _query_ref(dbs, txn, event_types):
+                for result in _query_latest(dbs, txn, event_types):
                     _print_result(result)
 
             elif args.subaction == 'partition':
@@ -144,7 +144,7 @@ def _query_ref(dbs, txn, server_id):
 
         for event_ref in event_refs:
             if isinstance(event_ref, common.LatestEventRef):
-                latest_type_key = latest_type_db_def.encoded_key(event_ref.key)
+                latest_type_key = latest_type_db_def.encode_key(event_ref.key)
                 latest_type_value = txn.get(latest_type_key, db=latest_type_db)
 
                 event_type = latest_type_db_def.decode_value(latest_type_value)
@@ -173,7 +173,7 @@ def _query_latest(dbs, txn, event_types):
         if not subscription.matches(event.type):
             continue
 
-        yield common.event_to_json(value)
+        yield common.event_to_json(event)
 
 
 def _query_partition(dbs, txn, partition_id):
-- 
2.43.0


From 417827ed143fb758400da95f5d43b9139bb15fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:00 +0000
Subject: [PATCH 21/27] fix: module created while engine is closing is closed

---
 src_py/hat/event/server/engine.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src_py/hat/event/server/engine.py b/src_py/hat/event/server/engine.py
index fb7ee5a..7b7a8fd 100644
--- a/src_py/hat/event/server/engine.py
+++ b/src_py/hat/event/server/engine.py
@@ -50,11 +50,7 @@ async def create_engine(backend: common.Backend,
                                    id=source_id)
 
             module = await engine.async_group.spawn(
-                aio.call, info.create, module_conf, engine, source)
-            engine.async_group.spawn(aio.call_on_cancel, module.async_close)
-            engine.async_group.spawn(aio.call_on_done, module.wait_closing(),
-                                     engine.close)
-
+                engine._create_module, info, module_conf, source)
             engine._source_modules.append((source, module))
 
         engine.async_group.spawn(engine._register_loop)
@@ -108,6 +104,22 @@ class Engine(common.Engine):
     def reset_monitor_ready(self):
         self._reset_monitor_ready_cb()
 
+    async def _create_module(self, info, module_conf, source):
+        module = await aio.call(info.create, module_conf, self, source)
+
+        try:
+            # module is bound to engine before any other task can run - engine
+            # can be closed while module is being created
+            self.async_group.spawn(aio.call_on_cancel, module.async_close)
+            self.async_group.spawn(aio.call_on_done, module.wait_closing(),
+                                   self.close)
+
+        except BaseException:
+            await aio.uncancellable(module.async_close())
+            raise
+
+        return module
+
     async def _register_loop(self):
         future = None
         mlog.debug("starting register loop")
-- 
2.43.0


From 996b977603363fa037cad46854d0dfa4155fc1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:34 +0000
Subject: [PATCH 22/27] fix: manager register command waits for response

---
 src_py/hat/event/manager/main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src_py/hat/event/manager/main.py b/src_py/hat/event/manager/main.py
index 9be0e81..ac84744 100644
--- a/src_py/hat/event/manager/main.py
+++ b/src_py/hat/event/manager/main.py
@@ -231,7 +231,8 @@ async def register(addr: tcp.Address,
                                    client_token=client_token)
 
     try:
-        result = await client.register([register_event])
+        result = await client.register([register_event],
+                                       with_response=True)
 
         if result is None:
             return 1
-- 
2.43.0


From 2727e4c3303564159963e6bb2cd743a00f944766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:34 +0000
Subject: [PATCH 23/27] fix: manager query server command

---
 src_py/hat/event/manager/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_py/hat/event/manager/main.py b/src_py/hat/event/manager/main.py
index ac84744..b179101 100644
--- a/src_py/hat/event/manager/main.py
+++ b/src_py/hat/event/manager/main.py
@@ -180,7 +180,7 @@ def main():
                 last_event_id=args.last_event_id)
 
         elif args.query_type == 'server':
-            params = common.QueryTimeseriesParams(
+            params = common.QueryServerParams(
                 server_id=args.server_id,
                 persisted=args.persisted,
                 max_results=args.max_results,
-- 
2.43.0


From ae24f32e990cb6ff4397562c95b701065c436c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:34 +0000
Subject: [PATCH 24/27] fix: manager parsing of last event id

---
 src_py/hat/event/manager/main.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src_py/hat/event/manager/main.py b/src_py/hat/event/manager/main.py
index b179101..2439e0e 100644
--- a/src_py/hat/event/manager/main.py
+++ b/src_py/hat/event/manager/main.py
@@ -306,7 +306,10 @@ def _parse_event_type(event_type):
 
 
 def _parse_event_id(event_id):
-    return common.EventId(event_id.split(','))
+    server_id, session_id, instance_id = event_id.split(',')
+    return common.EventId(server=int(server_id),
+                          session=int(session_id),
+                          instance=int(instance_id))
 
 
 def _parse_order(order):
-- 
2.43.0


From c9228a4905e18029e9a752ad9a4559e687bb4a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:34 +0000
Subject: [PATCH 25/27] fix: manager order options accept their choices

---
 src_py/hat/event/manager/main.py | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/src_py/hat/event/manager/main.py b/src_py/hat/event/manager/main.py
index 2439e0e..6e9ad5f 100644
--- a/src_py/hat/event/manager/main.py
+++ b/src_py/hat/event/manager/main.py
@@ -84,13 +84,12 @@ def create_argument_parser() -> argparse.ArgumentParser:
         default=None,
         help="to source timestamp")
     query_timeseries_parser.add_argument(
-        '--order', type=_parse_order, choices=[i.name for i in common.Order],
-        default=common.Order.DESCENDING,
+        '--order', choices=[i.name for i in common.Order],
+        default=common.Order.DESCENDING.name,
         help="order (default 'DESCENDING')")
     query_timeseries_parser.add_argument(
-        '--order-by', type=_parse_order_by,
-        choices=[i.name for i in common.OrderBy],
-        default=common.OrderBy.TIMESTAMP,
+        '--order-by', choices=[i.name for i in common.OrderBy],
+        default=common.OrderBy.TIMESTAMP.name,
         help="order (default 'TIMESTAMP')")
     query_timeseries_parser.add_argument(
         '--max-results', metavar='N', type=int, default=None,
@@ -174,8 +173,8 @@ def main():
                 t_to=args.t_to,
                 source_t_from=args.source_t_from,
                 source_t_to=args.source_t_to,
-                order=args.order,
-                order_by=args.order_by,
+                order=common.Order[args.order],
+                order_by=common.OrderBy[args.order_by],
                 max_results=args.max_results,
                 last_event_id=args.last_event_id)
 
@@ -312,14 +311,6 @@ def _parse_event_id(event_id):
                           instance=int(instance_id))
 
 
-def _parse_order(order):
-    return common.Order[order]
-
-
-def _parse_order_by(order_by):
-    return common.OrderBy[order_by]
-
-
 def _read_payload(payload_type, binary_type, path):
     if payload_type == 'none':
         return
-- 
2.43.0


From 8cf135debf69b4c45bc9aae51a91f3a394d53cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:46 +0000
Subject: [PATCH 26/27] fix: complete status notifications when closing during
 engine restart

Closing of engine runner while engine is being restarted cancelled
notification of STOPPING, which was not repeated for remaining clients -
they observed OPERATIONAL followed by STANDBY.
---
 src_py/hat/event/server/engine_runner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src_py/hat/event/server/engine_runner.py b/src_py/hat/event/server/engine_runner.py
index a38a166..eafe38f 100644
--- a/src_py/hat/event/server/engine_runner.py
+++ b/src_py/hat/event/server/engine_runner.py
@@ -90,7 +90,8 @@ class EngineRunner(aio.Resource):
                 if not self._engine.is_open:
                     break
 
-                await self._close()
+                # status notifications can't be skipped if runner is closed
+                await aio.uncancellable(self._close())
 
         except Exception as e:
             mlog.error("engine runner loop error: %s", e, exc_info=e)
-- 
2.43.0


From e7aa7125b3c9c5918a04384c467d252eaf948cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:50 +0000
Subject: [PATCH 27/27] fix: keep event timestamps monotonic when system time
 is set back

Backend ignores events with timestamp less than timestamp of server's last
event. If system time was set back, engine kept registering events which
were reported as registered but were not stored, and ids of which were
assigned again after restart.
---
 src_py/hat/event/server/engine.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src_py/hat/event/server/engine.py b/src_py/hat/event/server/engine.py
index 7b7a8fd..8a3415c 100644
--- a/src_py/hat/event/server/engine.py
+++ b/src_py/hat/event/server/engine.py
@@ -37,6 +37,8 @@ async def create_engine(backend: common.Backend,
     engine._source_modules = collections.deque()
 
     engine._last_event_id = await backend.get_last_event_id(server_id)
+    engine._last_timestamp = await _get_timestamp(backend,
+                                                  engine._last_event_id)
 
     future = engine._loop.create_future()
     source = common.Source(type=common.SourceType.ENGINE, id=0)
@@ -218,7 +220,10 @@ class Engine(common.Engine):
             session=self._last_event_id.session + 1,
             instance=0)
 
-        return common.now()
+        # system time can be set back
+        self._last_timestamp = max(self._last_timestamp, common.now())
+
+        return self._last_timestamp
 
     def _create_event(self, timestamp, register_event):
         self._last_event_id = self._last_event_id._replace(
@@ -229,3 +234,17 @@ class Engine(common.Engine):
                             timestamp=timestamp,
                             source_timestamp=register_event.source_timestamp,
                             payload=register_event.payload)
+
+
+async def _get_timestamp(backend, event_id):
+    if not event_id.instance:
+        return common.min_timestamp
+
+    previous_id = event_id._replace(instance=event_id.instance - 1)
+    result = await backend.query(
+        common.QueryServerParams(server_id=event_id.server,
+                                 last_event_id=previous_id,
+                                 max_results=1))
+
+    return max((event.timestamp for event in result.events),
+               default=common.min_timestamp)
-- 
2.43.0

