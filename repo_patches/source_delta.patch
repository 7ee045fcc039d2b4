From e790ef863fbdd01bec39c59d9cec95bdb4222673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:50 +0000
Subject: [PATCH 01/23] fix: exact seconds in timestamp_from_datetime

Negative whole seconds were converted to the previous second, and for dates
far from the epoch float rounding of datetime.timestamp() could change the
second.
---
 src_py/hat/event/common/encoder.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src_py/hat/event/common/encoder.py b/src_py/hat/event/common/encoder.py
index 6ead782..f79e8c0 100644
--- a/src_py/hat/event/common/encoder.py
+++ b/src_py/hat/event/common/encoder.py
@@ -107,12 +107,10 @@ def timestamp_from_datetime(dt: datetime.datetime) -> Timestamp:
     if not dt.tzinfo:
         dt = dt.replace(tzinfo=datetime.timezone.utc)
 
-    s = int(dt.timestamp())
+    delta = dt - datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)
 
-    if dt.timestamp() < 0:
-        s = s - 1
-
-    return Timestamp(s=s, us=dt.microsecond)
+    return Timestamp(s=delta.days * 86400 + delta.seconds,
+                     us=delta.microseconds)
 
 
 def timestamp_to_sbs(t: Timestamp) -> sbs.Data:
-- 
2.43.0


From 741bf089e7fb846c8a389da6d3c4ab7e28c4d012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:48 +0000
Subject: [PATCH 02/23] fix: add value to all query types in tree collection

Adding value stopped at the first query type for which the value was
already registered, leaving remaining query types without the value.
---
 src_py/hat/event/common/collection/pytree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_py/hat/event/common/collection/pytree.py b/src_py/hat/event/common/collection/pytree.py
index cb37721..c57839d 100644
--- a/src_py/hat/event/common/collection/pytree.py
+++ b/src_py/hat/event/common/collection/pytree.py
@@ -26,7 +26,7 @@ class PyTreeEventTypeCollection(common.EventTypeCollection):
                 node = node.children[head]
 
             if value in node.values:
-                return
+                continue
 
             node.values.add(value)
             self._value_nodes[value].append(node)
-- 
2.43.0


From ceaa8036e873611eae4c25e77a1501b82105366b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:48 +0000
Subject: [PATCH 03/23] fix: subscription intersection with zero-length '*' and
 dead branches

Trailing '*' matches zero segments, so intersection with node containing
'*' is exactly the other node. Branches without any match are not kept, as
disjointness test relies on non-empty nodes.
---
 src_py/hat/event/common/subscription/common.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src_py/hat/event/common/subscription/common.py b/src_py/hat/event/common/subscription/common.py
index ef26946..cf86df9 100644
--- a/src_py/hat/event/common/subscription/common.py
+++ b/src_py/hat/event/common/subscription/common.py
@@ -80,15 +80,14 @@ def union(first: Node, second: Node) -> Node:
 
 
 def intersection(first: Node, second: Node) -> Node:
-    is_leaf = first.is_leaf and second.is_leaf
-
     if '*' in first.children:
-        children = second.children
+        return second
 
     elif '*' in second.children:
-        children = first.children
+        return first
 
     else:
+        is_leaf = first.is_leaf and second.is_leaf
         children = {}
 
         for name, child, other_children in itertools.chain(
@@ -112,6 +111,8 @@ def intersection(first: Node, second: Node) -> Node:
             for other_name, other_child in candidates.items():
                 result_name = name if name != '?' else other_name
                 result_children = intersection(child, other_child)
+                if not result_children.is_leaf and not result_children.children:
+                    continue
                 prev_result_children = children.get(result_name)
                 children[result_name] = (
                     union(prev_result_children, result_children)
-- 
2.43.0


From cdc09857aa4a7d194d58104763625d67be30a8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:36 +0000
Subject: [PATCH 04/23] fix: memory backend queries and last event id

Event attributes were referenced by wrong names, sort key was a tuple
instead of a function, missing source timestamps could not be compared and
server query repeated the last event when there was none to follow.
---
 src_py/hat/event/backends/memory.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src_py/hat/event/backends/memory.py b/src_py/hat/event/backends/memory.py
index 464ccbe..46a2191 100644
--- a/src_py/hat/event/backends/memory.py
+++ b/src_py/hat/event/backends/memory.py
@@ -24,8 +24,8 @@ class MemoryBackend(common.Backend):
         return self._async_group
 
     async def get_last_event_id(self, server_id):
-        event_ids = (e.event_id for e in self._events
-                     if e.server == server_id)
+        event_ids = (e.id for e in self._events
+                     if e.id.server == server_id)
         default = common.EventId(server=server_id, session=0, instance=0)
         return max(event_ids, default=default)
 
@@ -89,9 +89,11 @@ class MemoryBackend(common.Backend):
             events = _filter_source_t_to(events, params.source_t_to)
 
         if params.order_by == common.OrderBy.TIMESTAMP:
-            sort_key = lambda event: event.timestamp, event  # NOQA
+            sort_key = lambda event: (event.timestamp, event.id)  # NOQA
         elif params.order_by == common.OrderBy.SOURCE_TIMESTAMP:
-            sort_key = lambda event: event.source_timestamp, event  # NOQA
+            events = (event for event in events
+                      if event.source_timestamp is not None)
+            sort_key = lambda event: (event.source_timestamp, event.id)  # NOQA
         else:
             raise ValueError('invalid order by')
 
@@ -122,11 +124,9 @@ class MemoryBackend(common.Backend):
     def _query_server(self, params):
         events = sorted(_filter_server_id(self._events, params.server_id))
 
-        if params.last_event_id and events:
-            for i, event in enumerate(events):
-                if event.id > params.last_event_id:
-                    break
-            events = events[i:]
+        if params.last_event_id:
+            events = [event for event in events
+                      if event.id > params.last_event_id]
 
         if params.max_results is not None and len(events) > params.max_results:
             more_follows = True
@@ -162,17 +162,19 @@ def _filter_t_to(events, t_to):
 
 def _filter_source_t_from(events, source_t_from):
     for event in events:
-        if event.source_timestamp >= source_t_from:
+        if (event.source_timestamp is not None and
+                event.source_timestamp >= source_t_from):
             yield event
 
 
 def _filter_source_t_to(events, source_t_to):
     for event in events:
-        if event.source_timestamp <= source_t_to:
+        if (event.source_timestamp is not None and
+                event.source_timestamp <= source_t_to):
             yield event
 
 
 def _filter_server_id(events, server_id):
     for event in events:
-        if event.event_id.server == server_id:
+        if event.id.server == server_id:
             yield event
-- 
2.43.0


From c97e6e4c357aa2ef22ea4351875108136b696cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:02 +0000
Subject: [PATCH 05/23] fix: boolean and number are different condition data
 values

---
 src_py/hat/event/backends/lmdb/conditions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_py/hat/event/backends/lmdb/conditions.py b/src_py/hat/event/backends/lmdb/conditions.py
index f1e3b77..9a2da33 100644
--- a/src_py/hat/event/backends/lmdb/conditions.py
+++ b/src_py/hat/event/backends/lmdb/conditions.py
@@ -93,7 +93,7 @@ class _JsonCondition:
                     return False
 
         if 'data_value' in self._conf:
-            if self._conf['data_value'] != data:
+            if not json.equals(self._conf['data_value'], data):
                 return False
 
         return True
-- 
2.43.0


From c2dcd3e2bfcb20cf1a3690380082445f1f1b269d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:02 +0000
Subject: [PATCH 06/23] fix: merge unflushed timeseries events by ordering key

Unflushed events were returned in registration order, before or after all
flushed events, and time range limits were applied assuming ordered
sequence. Source timestamps, and timestamps of multiple servers, do not
follow registration order.
---
 .../hat/event/backends/lmdb/timeseriesdb.py   | 59 ++++++++-----------
 1 file changed, 25 insertions(+), 34 deletions(-)

diff --git a/src_py/hat/event/backends/lmdb/timeseriesdb.py b/src_py/hat/event/backends/lmdb/timeseriesdb.py
index 0d2210c..0313854 100644
--- a/src_py/hat/event/backends/lmdb/timeseriesdb.py
+++ b/src_py/hat/event/backends/lmdb/timeseriesdb.py
@@ -1,6 +1,8 @@
 from collections.abc import Iterable
+import bisect
 import collections
 import functools
+import heapq
 import itertools
 import typing
 
@@ -12,8 +14,8 @@ from hat.event.backends.lmdb.conditions import Conditions
 
 
 Changes: typing.TypeAlias = dict[common.PartitionId,
-                                 collections.deque[tuple[common.Timestamp,
-                                                         common.Event]]]
+                                 list[tuple[common.Timestamp,
+                                            common.Event]]]
 
 
 class Limit(typing.NamedTuple):
@@ -40,7 +42,7 @@ def ext_create(env: environment.Environment,
     db._env = env
     db._conditions = conditions
     db._max_results = max_results
-    db._changes = collections.defaultdict(collections.deque)
+    db._changes = collections.defaultdict(list)
     db._event_type_partitions = {}  # type: dict[common.EventType, Collection[tuple[common.PartitionId, Partition]]]  # NOQA
 
     # depending on dict order
@@ -77,7 +79,8 @@ class TimeseriesDb:
             else:
                 raise ValueError('unsupported order by')
 
-            self._changes[partition_id].append((timestamp, event))
+            bisect.insort(self._changes[partition_id], (timestamp, event),
+                          key=_get_change_key)
 
             yield common.TimeseriesEventRef(
                 (partition_id, timestamp, event.id))
@@ -109,7 +112,7 @@ class TimeseriesDb:
 
     def create_changes(self) -> Changes:
         changes, self._changes = (self._changes,
-                                  collections.defaultdict(collections.deque))
+                                  collections.defaultdict(list))
         return changes
 
     def ext_write(self,
@@ -149,9 +152,6 @@ class TimeseriesDb:
 
     async def _query_partition(self, partition_id, params, subscription,
                                max_results):
-        events = collections.deque()
-        changes = self._changes
-
         filter = _Filter(subscription=subscription,
                          t_from=params.t_from,
                          t_to=params.t_to,
@@ -160,26 +160,12 @@ class TimeseriesDb:
                          max_results=max_results + 1,
                          last_event_id=params.last_event_id)
 
-        if params.order == common.Order.DESCENDING:
-            events.extend(_query_partition_changes(
-                changes[partition_id], params, filter))
-
-            if not filter.done:
-                events.extend(await self._env.execute(
-                    _ext_query_partition_events, self._env, self._conditions,
-                    partition_id, params, filter))
-
-        elif params.order == common.Order.ASCENDING:
-            events.extend(await self._env.execute(
-                _ext_query_partition_events, self._env, self._conditions,
-                partition_id, params, filter))
-
-            if not filter.done:
-                events.extend(_query_partition_changes(
-                    changes[partition_id], params, filter))
+        changes = list(_query_partition_changes(
+            self._changes.get(partition_id, []), params))
 
-        else:
-            raise ValueError('unsupported order')
+        events = await self._env.execute(
+            _ext_query_partition_events, self._env, self._conditions,
+            partition_id, params, changes, filter)
 
         more_follows = len(events) > max_results
         while len(events) > max_results:
@@ -226,21 +212,30 @@ def _ext_init_partitions(env, txn, partitions):
         yield partition_id, partition
 
 
+def _get_change_key(change):
+    timestamp, event = change
+    return timestamp, event.id
+
+
 def _ext_query_partition_events(env, conditions, partition_id, params,
-                                filter):
+                                changes, filter):
     if params.order_by == common.OrderBy.TIMESTAMP:
         events = _ext_query_partition_events_range(
             env, partition_id, params.t_from, params.t_to, params.order)
+        merge_key = lambda event: (event.timestamp, event.id)  # NOQA
 
     elif params.order_by == common.OrderBy.SOURCE_TIMESTAMP:
         events = _ext_query_partition_events_range(
             env, partition_id, params.source_t_from, params.source_t_to,
             params.order)
+        merge_key = lambda event: (event.source_timestamp, event.id)  # NOQA
 
     else:
         raise ValueError('unsupported order by')
 
     events = (event for event in events if conditions.matches(event))
+    events = heapq.merge(events, changes, key=merge_key,
+                         reverse=params.order == common.Order.DESCENDING)
     events = filter.process(events)
     return collections.deque(events)
 
@@ -393,7 +388,7 @@ def _ext_cleanup_partition(env, txn, now, partition_id, limit, max_results):
                                  entries_count - result_count)
 
 
-def _query_partition_changes(changes, params, filter):
+def _query_partition_changes(changes, params):
     if params.order == common.Order.DESCENDING:
         events = (event for _, event in reversed(changes))
 
@@ -451,7 +446,7 @@ def _query_partition_changes(changes, params, filter):
     else:
         raise ValueError('unsupported order')
 
-    return filter.process(events)
+    return events
 
 
 class _Filter:
@@ -472,10 +467,6 @@ class _Filter:
         self._max_results = max_results
         self._last_event_id = last_event_id
 
-    @property
-    def done(self):
-        return self._max_results < 1
-
     def process(self, events: Iterable[common.Event]):
         for event in events:
             if self._max_results < 1:
-- 
2.43.0


From 1b1286be367c71f0a3b03a20e3c56862e447bb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:51 +0000
Subject: [PATCH 07/23] fix: closing eventer connection fails only its own
 acknowledgements

Pending acknowledgements of other connections were also failed, so that
notification with acknowledgement returned before they were received.
---
 src_py/hat/event/eventer/server.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src_py/hat/event/eventer/server.py b/src_py/hat/event/eventer/server.py
index 2b989dd..3215c7a 100644
--- a/src_py/hat/event/eventer/server.py
+++ b/src_py/hat/event/eventer/server.py
@@ -202,8 +202,8 @@ class Server(aio.Resource):
             conn.close()
             self._conn_infos.pop(conn, None)
 
-            for future in self._conn_conv_futures.values():
-                if not future.done():
+            for (future_conn, _), future in self._conn_conv_futures.items():
+                if future_conn == conn and not future.done():
                     future.set_exception(ConnectionError())
 
             if self._disconnected_cb and info:
-- 
2.43.0


From 1745cb75e886d40127774ea337837d67c2572b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:51 +0000
Subject: [PATCH 08/23] fix: adminer client ignores response without pending
 request

Response to cancelled request stopped receive loop and closed connection.
---
 src_py/hat/event/adminer/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_py/hat/event/adminer/client.py b/src_py/hat/event/adminer/client.py
index 1077b7e..b27225e 100644
--- a/src_py/hat/event/adminer/client.py
+++ b/src_py/hat/event/adminer/client.py
@@ -99,7 +99,7 @@ class Client(aio.Resource):
                 res_msg_type, future = self._conv_msg_type_futures.get(
                     msg.conv, (None, None))
                 if not future or future.done():
-                    return
+                    continue
 
                 if res_msg_type != msg_type:
                     raise Exception('invalid response message type')
-- 
2.43.0


From bd1377a833d33edbcf7d88480e012ae82c24067a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:37 +0000
Subject: [PATCH 09/23] fix: import logging.config used for setting log
 configuration

---
 src_py/hat/event/server/adminer_server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_py/hat/event/server/adminer_server.py b/src_py/hat/event/server/adminer_server.py
index 7460cb4..73d70f1 100644
--- a/src_py/hat/event/server/adminer_server.py
+++ b/src_py/hat/event/server/adminer_server.py
@@ -1,4 +1,4 @@
-import logging
+import logging.config
 
 from hat import aio
 from hat import json
-- 
2.43.0


From f7108cf0076403fda2fefda51d373da4a1adc618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:11 +0000
Subject: [PATCH 10/23] fix: engine closing does not reject accepted eventer
 client

Registration of CONNECTED event fails if engine is closed meanwhile, which
was reported to client with valid token as initialization error.
---
 src_py/hat/event/server/eventer_server.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src_py/hat/event/server/eventer_server.py b/src_py/hat/event/server/eventer_server.py
index f3c79e8..230920d 100644
--- a/src_py/hat/event/server/eventer_server.py
+++ b/src_py/hat/event/server/eventer_server.py
@@ -1,6 +1,7 @@
 """Eventer server"""
 
 from collections.abc import Collection, Iterable
+import contextlib
 import logging
 
 from hat import aio
@@ -87,7 +88,10 @@ class EventerServer(aio.Resource):
 
         source = _get_source(info.id)
         register_event = self._create_eventer_event(info, 'CONNECTED')
-        await self._engine.register(source, [register_event])
+
+        # engine closing during registration doesn't reject connection
+        with contextlib.suppress(Exception):
+            await self._engine.register(source, [register_event])
 
     async def _on_disconnected(self, info):
         if not self._engine or not self._engine.is_open:
-- 
2.43.0


From 06aa405a5c6acfa87f0580865e313afd499df7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:12 +0000
Subject: [PATCH 11/23] fix: condition data value comparison of objects with
 different keys

---
 src_py/hat/event/backends/lmdb/conditions.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src_py/hat/event/backends/lmdb/conditions.py b/src_py/hat/event/backends/lmdb/conditions.py
index 9a2da33..50e8a1a 100644
--- a/src_py/hat/event/backends/lmdb/conditions.py
+++ b/src_py/hat/event/backends/lmdb/conditions.py
@@ -93,7 +93,21 @@ class _JsonCondition:
                     return False
 
         if 'data_value' in self._conf:
-            if not json.equals(self._conf['data_value'], data):
+            if not _equals(self._conf['data_value'], data):
                 return False
 
         return True
+
+
+def _equals(a, b):
+    if isinstance(a, dict):
+        return (isinstance(b, dict) and
+                a.keys() == b.keys() and
+                all(_equals(a[key], b[key]) for key in a))
+
+    if isinstance(a, list):
+        return (isinstance(b, list) and
+                len(a) == len(b) and
+                all(_equals(i, j) for i, j in zip(a, b)))
+
+    return isinstance(a, bool) == isinstance(b, bool) and a == b
-- 
2.43.0


From 81e5ba283afb78f051d14c44efb38572475b341d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:45 +0000
Subject: [PATCH 12/23] fix: server query returns only events of the queried
 reference

---
 src_py/hat/event/backends/lmdb/refdb.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src_py/hat/event/backends/lmdb/refdb.py b/src_py/hat/event/backends/lmdb/refdb.py
index 3441c45..b03af16 100644
--- a/src_py/hat/event/backends/lmdb/refdb.py
+++ b/src_py/hat/event/backends/lmdb/refdb.py
@@ -194,14 +194,14 @@ def _ext_query_events(env, server_id, max_results, last_event_id):
             while (available and
                     len(events) < max_results and
                     bytes(cursor.key()) < encoded_stop_key):
-                value = db_def.decode_value(cursor.value())
-                ref = util.first(value)
-                if not ref:
-                    continue
+                event_id = db_def.decode_key(cursor.key())
+                refs = db_def.decode_value(cursor.value())
 
-                event = _ext_get_event(env, txn, ref)
+                # latest data can be superseded by other event of same type
+                ref_events = (_ext_get_event(env, txn, ref) for ref in refs)
+                event = util.first(ref_events,
+                                   lambda i: i and i.id == event_id)
                 if event:
-                    # TODO decode key and check event_id == event.id
                     events.append(event)
 
                 available = cursor.next()
-- 
2.43.0


From 28878b6d6cc4291e767cd018ee0c7f2f4b1b7416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:25 +0000
Subject: [PATCH 13/23] fix: events notified late are not registered again
 after synchronization

---
 src_py/hat/event/server/eventer_client.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src_py/hat/event/server/eventer_client.py b/src_py/hat/event/server/eventer_client.py
index a65c6ea..d938b99 100644
--- a/src_py/hat/event/server/eventer_client.py
+++ b/src_py/hat/event/server/eventer_client.py
@@ -48,6 +48,7 @@ async def create_eventer_client(addr: tcp.Address,
     client._status_cb = status_cb
     client._synced_cb = synced_cb
     client._synced = None
+    client._last_event_id = None
     client._events_queue = collections.deque()
 
     client._client = await eventer.connect(addr=addr,
@@ -118,6 +119,12 @@ class EventerClient(aio.Resource):
             self._events_queue.append(events)
             return
 
+        # queried events can be notified after synchronization is finished
+        events = [event for event in events
+                  if event.id > self._last_event_id]
+        if not events:
+            return
+
         await self._backend.register(events)
 
     async def _synchronize(self):
@@ -172,6 +179,7 @@ class EventerClient(aio.Resource):
 
                 await self._backend.register(events)
 
+            self._last_event_id = last_event_id
             self._events_queue = None
 
             mlog.debug("synchronized %s events", synced_counter)
-- 
2.43.0


From 553c6b4a6f66e9eb2083e3ed8988c372d51027b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:50 +0000
Subject: [PATCH 14/23] fix: component runner creation interrupted by lost
 connection or new server

If connection to the server was lost while runner_cb was running, task of
the client loop was silently canceled - component stayed open without ever
connecting again. If server data changed as runner_cb finished, created
runner was never closed.
---
 src_py/hat/event/component.py | 44 ++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/src_py/hat/event/component.py b/src_py/hat/event/component.py
index 7526480..8bd436f 100644
--- a/src_py/hat/event/component.py
+++ b/src_py/hat/event/component.py
@@ -248,27 +248,34 @@ class Component(aio.Resource):
 
                 try:
                     mlog.debug("connected to server")
-                    runner = await client.async_group.spawn(
+                    runner_task = client.async_group.spawn(
                         aio.call, self._runner_cb, self, server_data, client)
 
                     try:
-                        async with async_group.create_subgroup() as subgroup:
-                            client_closing_task = subgroup.spawn(
-                                client.wait_closing)
-                            runner_closing_task = subgroup.spawn(
-                                runner.wait_closing)
+                        # runner_task is canceled if client is closed
+                        await asyncio.wait([runner_task])
 
-                            await asyncio.wait(
-                                [client_closing_task, runner_closing_task],
-                                return_when=asyncio.FIRST_COMPLETED)
+                        if client.is_open:
+                            runner = runner_task.result()
 
-                            if (runner_closing_task.done() and
-                                    not client_closing_task.done()):
-                                self.close()
-                                return
+                            async with async_group.create_subgroup() as group:
+                                client_closing_task = group.spawn(
+                                    client.wait_closing)
+                                runner_closing_task = group.spawn(
+                                    runner.wait_closing)
+
+                                await asyncio.wait(
+                                    [client_closing_task, runner_closing_task],
+                                    return_when=asyncio.FIRST_COMPLETED)
+
+                                if (runner_closing_task.done() and
+                                        not client_closing_task.done()):
+                                    self.close()
+                                    return
 
                     finally:
-                        await aio.uncancellable(runner.async_close())
+                        await aio.uncancellable(
+                            _close_runner(client, runner_task))
 
                 finally:
                     await aio.uncancellable(client.async_close())
@@ -282,3 +289,12 @@ class Component(aio.Resource):
 
         finally:
             async_group.close()
+
+
+async def _close_runner(client, runner_task):
+    if not runner_task.done():
+        client.close()
+        await asyncio.wait([runner_task])
+
+    if not runner_task.cancelled() and not runner_task.exception():
+        await runner_task.result().async_close()
-- 
2.43.0


From ad0c3f64a8bb7aac6be04cafbf67ad7e8354a63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:25 +0000
Subject: [PATCH 15/23] fix: registrations waiting while engine creation fails
 never ended

If creation of a module failed or was canceled, registrations of already
created modules waited forever (and with them closing of the engine, if
module waits for its registration).
---
 src_py/hat/event/server/engine.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src_py/hat/event/server/engine.py b/src_py/hat/event/server/engine.py
index f7d779c..4d67d2d 100644
--- a/src_py/hat/event/server/engine.py
+++ b/src_py/hat/event/server/engine.py
@@ -60,6 +60,7 @@ async def create_engine(backend: common.Backend,
         engine.async_group.spawn(engine._register_loop)
 
     except BaseException:
+        engine._close_register_queue(None)
         await aio.uncancellable(engine.async_close())
         raise
 
@@ -108,6 +109,16 @@ class Engine(common.Engine):
     def reset_monitor_ready(self):
         self._reset_monitor_ready_cb()
 
+    def _close_register_queue(self, future):
+        self._register_queue.close()
+
+        while True:
+            if future and not future.done():
+                future.set_exception(Exception('engine closed'))
+            if self._register_queue.empty():
+                break
+            future, _, __ = self._register_queue.get_nowait()
+
     async def _register_loop(self):
         future = None
         mlog.debug("starting register loop")
@@ -138,14 +149,7 @@ class Engine(common.Engine):
         finally:
             mlog.debug("register loop closed")
             self.close()
-            self._register_queue.close()
-
-            while True:
-                if future and not future.done():
-                    future.set_exception(Exception('engine closed'))
-                if self._register_queue.empty():
-                    break
-                future, _, __ = self._register_queue.get_nowait()
+            self._close_register_queue(future)
 
             timestamp = self._create_session()
             status_reg_event = self._create_status_reg_event('STOPPED')
-- 
2.43.0


From 83096d6384aae0ab1b71d5c734ab53048844b788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:25 +0000
Subject: [PATCH 16/23] fix: module created as engine creation is canceled was
 never closed

---
 src_py/hat/event/server/engine.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src_py/hat/event/server/engine.py b/src_py/hat/event/server/engine.py
index 4d67d2d..d6c94e4 100644
--- a/src_py/hat/event/server/engine.py
+++ b/src_py/hat/event/server/engine.py
@@ -49,13 +49,8 @@ async def create_engine(backend: common.Backend,
             source = common.Source(type=common.SourceType.MODULE,
                                    id=source_id)
 
-            module = await engine.async_group.spawn(
-                aio.call, info.create, module_conf, engine, source)
-            engine.async_group.spawn(aio.call_on_cancel, module.async_close)
-            engine.async_group.spawn(aio.call_on_done, module.wait_closing(),
-                                     engine.close)
-
-            engine._source_modules.append((source, module))
+            await engine.async_group.spawn(
+                engine._create_module, info, module_conf, source)
 
         engine.async_group.spawn(engine._register_loop)
 
@@ -109,6 +104,20 @@ class Engine(common.Engine):
     def reset_monitor_ready(self):
         self._reset_monitor_ready_cb()
 
+    async def _create_module(self, info, module_conf, source):
+        module = await aio.call(info.create, module_conf, self, source)
+
+        try:
+            self.async_group.spawn(aio.call_on_cancel, module.async_close)
+            self.async_group.spawn(aio.call_on_done, module.wait_closing(),
+                                   self.close)
+
+        except Exception:
+            await aio.uncancellable(module.async_close())
+            raise
+
+        self._source_modules.append((source, module))
+
     def _close_register_queue(self, future):
         self._register_queue.close()
 
-- 
2.43.0


From 4bd9452d9de1a2810bf18e4477f5f568eb40ea82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:51 +0000
Subject: [PATCH 17/23] fix: manager server query used parameters of timeseries
 query

---
 src_py/hat/event/manager/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_py/hat/event/manager/main.py b/src_py/hat/event/manager/main.py
index 9be0e81..95e7fcf 100644
--- a/src_py/hat/event/manager/main.py
+++ b/src_py/hat/event/manager/main.py
@@ -180,7 +180,7 @@ def main():
                 last_event_id=args.last_event_id)
 
         elif args.query_type == 'server':
-            params = common.QueryTimeseriesParams(
+            params = common.QueryServerParams(
                 server_id=args.server_id,
                 persisted=args.persisted,
                 max_results=args.max_results,
-- 
2.43.0


From e853dda39ee6dc3a1b1e688057332851c0b0ba86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:51 +0000
Subject: [PATCH 18/23] fix: manager rejected every last event id

---
 src_py/hat/event/manager/main.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src_py/hat/event/manager/main.py b/src_py/hat/event/manager/main.py
index 95e7fcf..b8362a6 100644
--- a/src_py/hat/event/manager/main.py
+++ b/src_py/hat/event/manager/main.py
@@ -305,7 +305,10 @@ def _parse_event_type(event_type):
 
 
 def _parse_event_id(event_id):
-    return common.EventId(event_id.split(','))
+    server_id, session_id, instance_id = event_id.split(',')
+    return common.EventId(server=int(server_id),
+                          session=int(session_id),
+                          instance=int(instance_id))
 
 
 def _parse_order(order):
-- 
2.43.0


From 24f292cf149cd49490fc8ca6ae6217cafdc2c6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:51 +0000
Subject: [PATCH 19/23] fix: manager rejected every query order

---
 src_py/hat/event/manager/main.py | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/src_py/hat/event/manager/main.py b/src_py/hat/event/manager/main.py
index b8362a6..6f99780 100644
--- a/src_py/hat/event/manager/main.py
+++ b/src_py/hat/event/manager/main.py
@@ -84,13 +84,12 @@ def create_argument_parser() -> argparse.ArgumentParser:
         default=None,
         help="to source timestamp")
     query_timeseries_parser.add_argument(
-        '--order', type=_parse_order, choices=[i.name for i in common.Order],
-        default=common.Order.DESCENDING,
+        '--order', choices=[i.name for i in common.Order],
+        default=common.Order.DESCENDING.name,
         help="order (default 'DESCENDING')")
     query_timeseries_parser.add_argument(
-        '--order-by', type=_parse_order_by,
-        choices=[i.name for i in common.OrderBy],
-        default=common.OrderBy.TIMESTAMP,
+        '--order-by', choices=[i.name for i in common.OrderBy],
+        default=common.OrderBy.TIMESTAMP.name,
         help="order (default 'TIMESTAMP')")
     query_timeseries_parser.add_argument(
         '--max-results', metavar='N', type=int, default=None,
@@ -174,8 +173,8 @@ def main():
                 t_to=args.t_to,
                 source_t_from=args.source_t_from,
                 source_t_to=args.source_t_to,
-                order=args.order,
-                order_by=args.order_by,
+                order=common.Order[args.order],
+                order_by=common.OrderBy[args.order_by],
                 max_results=args.max_results,
                 last_event_id=args.last_event_id)
 
@@ -311,14 +310,6 @@ def _parse_event_id(event_id):
                           instance=int(instance_id))
 
 
-def _parse_order(order):
-    return common.Order[order]
-
-
-def _parse_order_by(order_by):
-    return common.OrderBy[order_by]
-
-
 def _read_payload(payload_type, binary_type, path):
     if payload_type == 'none':
         return
-- 
2.43.0


From b61ea9ff23de4d70bbf973958930b4f2ce2dd5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:51 +0000
Subject: [PATCH 20/23] fix: manager reported each registration as failed

---
 src_py/hat/event/manager/main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src_py/hat/event/manager/main.py b/src_py/hat/event/manager/main.py
index 6f99780..6e9ad5f 100644
--- a/src_py/hat/event/manager/main.py
+++ b/src_py/hat/event/manager/main.py
@@ -230,7 +230,8 @@ async def register(addr: tcp.Address,
                                    client_token=client_token)
 
     try:
-        result = await client.register([register_event])
+        result = await client.register([register_event],
+                                       with_response=True)
 
         if result is None:
             return 1
-- 
2.43.0


From 28de2f680d32ffc9a32c9b0d56ae0bc210324069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:51 +0000
Subject: [PATCH 21/23] fix: query of references always failed in database
 manager

---
 src_py/hat/event/backends/lmdb/manager/query.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src_py/hat/event/backends/lmdb/manager/query.py b/src_py/hat/event/backends/lmdb/manager/query.py
index f2e7764..b8300d2 100644
--- a/src_py/hat/event/backends/lmdb/manager/query.py
+++ b/src_py/hat/event/backends/lmdb/manager/query.py
@@ -57,7 +57,7 @@ def query(args):
                     _print_result(result)
 
             elif args.subaction == 'ref':
-                for result in _query_ref(dbs, txn):
+                for result in _query_ref(dbs, txn, args.server_id):
                     _print_result(result)
 
             elif args.subaction == 'latest':
@@ -144,7 +144,7 @@ def _query_ref(dbs, txn, server_id):
 
         for event_ref in event_refs:
             if isinstance(event_ref, common.LatestEventRef):
-                latest_type_key = latest_type_db_def.encoded_key(event_ref.key)
+                latest_type_key = latest_type_db_def.encode_key(event_ref.key)
                 latest_type_value = txn.get(latest_type_key, db=latest_type_db)
 
                 event_type = latest_type_db_def.decode_value(latest_type_value)
-- 
2.43.0


From 8e292718814ebe8fa3a1086b401c6783bfd5936c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:51 +0000
Subject: [PATCH 22/23] fix: query of latest events always failed in database
 manager

---
 src_py/hat/event/backends/lmdb/manager/query.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src_py/hat/event/backends/lmdb/manager/query.py b/src_py/hat/event/backends/lmdb/manager/query.py
index b8300d2..a13cd8f 100644
--- a/src_py/hat/event/backends/lmdb/manager/query.py
+++ b/src_py/hat/event/backends/lmdb/manager/query.py
@@ -63,7 +63,7 @@ def query(args):
             elif args.subaction == 'latest':
                 event_types = ([tuple(i.split('/')) for i in args.event_types]
                                if args.event_types is not None else None)
-                for result in _query_ref(dbs, txn, event_types):
+                for result in _query_latest(dbs, txn, event_types):
                     _print_result(result)
 
             elif args.subaction == 'partition':
@@ -173,7 +173,7 @@ def _query_latest(dbs, txn, event_types):
         if not subscription.matches(event.type):
             continue
 
-        yield common.event_to_json(value)
+        yield common.event_to_json(event)
 
 
 def _query_partition(dbs, txn, partition_id):
-- 
2.43.0


From 193a91dc303b7c9100734c6da3b34b6532b4b9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:40 +0000
Subject: [PATCH 23/23] fix: last event of other servers lost in conversion of
 0.6 databases

---
 .../lmdb/convert/convert_v06_to_v07.py        | 35 +++++++------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/src_py/hat/event/backends/lmdb/convert/convert_v06_to_v07.py b/src_py/hat/event/backends/lmdb/convert/convert_v06_to_v07.py
index 0c7865e..bc7df29 100644
--- a/src_py/hat/event/backends/lmdb/convert/convert_v06_to_v07.py
+++ b/src_py/hat/event/backends/lmdb/convert/convert_v06_to_v07.py
@@ -37,7 +37,6 @@ def _convert_latest(src_env, dst_env, dst_system_db, dst_ref_db, server_id):
     dst_latest_data_db = v07.open_db(dst_env, v07.DbType.LATEST_DATA)
     dst_latest_type_db = v07.open_db(dst_env, v07.DbType.LATEST_TYPE)
 
-    latest_event = None
     next_event_type_ref = itertools.count(1)
 
     with src_env.begin(db=src_latest_db, buffers=True) as src_txn:
@@ -45,9 +44,6 @@ def _convert_latest(src_env, dst_env, dst_system_db, dst_ref_db, server_id):
             src_event = v06.decode_event(src_encoded_value)
             dst_event = _convert_event(src_event, server_id)
 
-            if not latest_event or latest_event.event_id < dst_event.event_id:
-                latest_event = dst_event
-
             event_type_ref = next(next_event_type_ref)
 
             with dst_env.begin(db=dst_latest_data_db, write=True) as dst_txn:
@@ -69,11 +65,9 @@ def _convert_latest(src_env, dst_env, dst_system_db, dst_ref_db, server_id):
                            dst_event=dst_event,
                            event_ref=v07.LatestEventRef(event_type_ref))
 
-    if latest_event:
-        _update_system_db(dst_env=dst_env,
-                          dst_system_db=dst_system_db,
-                          server_id=server_id,
-                          latest_event=latest_event)
+            _update_system_db(dst_env=dst_env,
+                              dst_system_db=dst_system_db,
+                              dst_event=dst_event)
 
 
 def _convert_ordered(src_env, dst_env, dst_system_db, dst_ref_db, server_id):
@@ -86,8 +80,6 @@ def _convert_ordered(src_env, dst_env, dst_system_db, dst_ref_db, server_id):
         dst_env, v07.DbType.ORDERED_PARTITION)
     dst_ordered_count_db = v07.open_db(dst_env, v07.DbType.ORDERED_COUNT)
 
-    latest_event = None
-
     with src_env.begin(db=src_ordered_data_db, buffers=True) as src_txn:
         for src_encoded_key, src_encoded_value in src_txn.cursor():
             partition_id, src_timestamp, _ = v06.decode_uint_timestamp_uint(
@@ -96,9 +88,6 @@ def _convert_ordered(src_env, dst_env, dst_system_db, dst_ref_db, server_id):
             dst_timestamp = _convert_timestamp(src_timestamp)
             dst_event = _convert_event(src_event, server_id)
 
-            if not latest_event or latest_event.event_id < dst_event.event_id:
-                latest_event = dst_event
-
             dst_key = partition_id, dst_timestamp, dst_event.event_id
 
             with dst_env.begin(db=dst_ordered_data_db, write=True) as dst_txn:
@@ -113,11 +102,9 @@ def _convert_ordered(src_env, dst_env, dst_system_db, dst_ref_db, server_id):
                            dst_event=dst_event,
                            event_ref=v07.OrderedEventRef(dst_key))
 
-    if latest_event:
-        _update_system_db(dst_env=dst_env,
-                          dst_system_db=dst_system_db,
-                          server_id=server_id,
-                          latest_event=latest_event)
+            _update_system_db(dst_env=dst_env,
+                              dst_system_db=dst_system_db,
+                              dst_event=dst_event)
 
     with src_env.begin(db=src_ordered_partition_db, buffers=True) as src_txn:
         for src_encoded_key, src_encoded_value in src_txn.cursor():
@@ -161,7 +148,9 @@ def _update_ref_db(dst_env, dst_ref_db, dst_event, event_ref):
         dst_txn.put(dst_encoded_key, dst_encoded_value)
 
 
-def _update_system_db(dst_env, dst_system_db, server_id, latest_event):
+def _update_system_db(dst_env, dst_system_db, dst_event):
+    server_id = dst_event.event_id.server
+
     with dst_env.begin(db=dst_system_db,
                        write=True,
                        buffers=True) as dst_txn:
@@ -172,10 +161,10 @@ def _update_system_db(dst_env, dst_system_db, server_id, latest_event):
                        if dst_encoded_value
                        else (v07.EventId(server_id, 0, 0), None))
 
-        if latest_event.event_id > event_id:
+        if dst_event.event_id > event_id:
             dst_txn.put(dst_encoded_key,
-                        v07.encode_system_db_value((latest_event.event_id,
-                                                    latest_event.timestamp)))
+                        v07.encode_system_db_value((dst_event.event_id,
+                                                    dst_event.timestamp)))
 
 
 def _get_server_id(src_env, src_system_db):
-- 
2.43.0

