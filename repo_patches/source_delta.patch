From 53c6af9d3b01605ba619fbbad8bd7567b877c13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:48 +0000
Subject: [PATCH 01/42] fix: heartbeat request and response declare their parts
 as pairs

---
 kiel/protocol/heartbeat.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kiel/protocol/heartbeat.py b/kiel/protocol/heartbeat.py
index aa8d518..edfc193 100644
--- a/kiel/protocol/heartbeat.py
+++ b/kiel/protocol/heartbeat.py
@@ -24,9 +24,9 @@ class HeartbeatRequest(Request):
     api = "heartbeat"
 
     parts = (
-        "group_id", String,
-        "generation_id", Int32,
-        "member_id", String,
+        ("group_id", String),
+        ("generation_id", Int32),
+        ("member_id", String),
     )
 
 
@@ -40,5 +40,5 @@ class HeartbeatResponse(Response):
     api = "heartbeat"
 
     parts = (
-        "error_code", Int16
+        ("error_code", Int16),
     )
-- 
2.43.0


From 66a20c530b127f5b9d92263a889da68b9201302f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:48 +0000
Subject: [PATCH 02/42] fix: a message checksum of exactly 2**31 is stored as a
 signed value

---
 kiel/protocol/messages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kiel/protocol/messages.py b/kiel/protocol/messages.py
index 9becef2..f13162b 100644
--- a/kiel/protocol/messages.py
+++ b/kiel/protocol/messages.py
@@ -174,7 +174,7 @@ class Message(Part):
         payload = struct.pack("!" + fmt, *data)
 
         crc = zlib.crc32(payload)
-        if crc > (2**31):
+        if crc >= (2**31):
             crc -= 2**32
 
         fmt = "i%ds" % len(payload)
-- 
2.43.0


From d5fd6c57bd23b77ea8fb0c5ba4603791f1c9f3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:48 +0000
Subject: [PATCH 03/42] fix: snappy decompression reads every block up to the
 end of the data

---
 kiel/compression/snappy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kiel/compression/snappy.py b/kiel/compression/snappy.py
index e3c3ef0..553e1df 100644
--- a/kiel/compression/snappy.py
+++ b/kiel/compression/snappy.py
@@ -65,11 +65,11 @@ def decompress(data):
         raise RuntimeError("Snappy compression unavailable.")
 
     buff_offset = len(raw_header)  # skip the header
-    length = len(data) - len(raw_header)
+    length = len(data)
 
     output = BytesIO()
 
-    while buff_offset <= length:
+    while buff_offset < length:
         block_size = struct.unpack_from("!i", data, buff_offset)[0]
         buff_offset += struct.calcsize("!i")
 
-- 
2.43.0


From 74ba7f656c9243c4c28b541e7acf6de6e5421509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:00 +0000
Subject: [PATCH 04/42] fix: a message set cut short ends at its declared size

---
 kiel/protocol/messages.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kiel/protocol/messages.py b/kiel/protocol/messages.py
index f13162b..142d7bd 100644
--- a/kiel/protocol/messages.py
+++ b/kiel/protocol/messages.py
@@ -124,9 +124,11 @@ class MessageSet(object):
             size, offset = Int32.parse(buff, offset)
 
         end = offset + size
+        # nothing past the set's own bytes belongs to it
+        buff = buff[:end]
 
         messages = []
-        while not offset == end:
+        while offset < end:
             try:
                 message_offset, offset = Int64.parse(buff, offset)
                 _, offset = Int32.parse(buff, offset)  # message size
@@ -142,7 +144,7 @@ class MessageSet(object):
             else:
                 messages.append((message_offset, message))
 
-        return cls(messages), offset
+        return cls(messages), end
 
 
 class Message(Part):
-- 
2.43.0


From 3dde00480318659cc3ce370273a595637d0a58dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:36 +0000
Subject: [PATCH 05/42] fix: aborting a connection inside an exception handler
 settles its pending futures

---
 kiel/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kiel/connection.py b/kiel/connection.py
index b0ec3d1..4c3c540 100644
--- a/kiel/connection.py
+++ b/kiel/connection.py
@@ -169,7 +169,7 @@ class Connection(object):
             _, pending = self.pending.popitem()
             exc_info = sys.exc_info()
             if any(exc_info):
-                pending.set_exc_info(sys.exc_info())
+                pending.set_exception(exc_info[1])
             else:
                 pending.set_exception(
                     BrokerConnectionError(self.host, self.port)
-- 
2.43.0


From 4380d9016a71587ab98c111496148c6de57182c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:55 +0000
Subject: [PATCH 06/42] fix: closing or losing a connection settles its pending
 requests

---
 kiel/connection.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/kiel/connection.py b/kiel/connection.py
index 4c3c540..81d019d 100644
--- a/kiel/connection.py
+++ b/kiel/connection.py
@@ -77,22 +77,35 @@ class Connection(object):
         """
         Sets the ``closing`` attribute to ``True`` and calls ``close()`` on the
         underlying stream.
+
+        Requests that are still pending will never be answered, their futures
+        are put into an error state.
         """
         self.closing = True
         self.stream.close()
+        self.fail_pending(BrokerConnectionError(self.host, self.port))
+
+    def fail_pending(self, error):
+        """
+        Puts the futures of all pending requests into an error state.
+        """
+        self.api_correlation.clear()
+        while self.pending:
+            _, pending = self.pending.popitem()
+            pending.set_exception(error)
 
     @contextlib.contextmanager
     def socket_error_handling(self, failure_message):
         """
         helper contextmanager for handling errors during IOStream operations.
 
-        Handles the StreamClosedError case by setting the ``closing`` flag,
-        logs any unexpected exceptions with a failure message.
+        Handles the StreamClosedError case by closing the connection, logs any
+        unexpected exceptions with a failure message and aborts it.
         """
         try:
             yield
         except iostream.StreamClosedError:
-            self.closing = True
+            self.close()
         except Exception:
             if not self.closing:
                 log.exception(failure_message)
@@ -163,17 +176,11 @@ class Connection(object):
 
         log.warn("Aborting connection to %s:%s", self.host, self.port)
 
+        self.closing = True
+        self.fail_pending(
+            sys.exc_info()[1] or BrokerConnectionError(self.host, self.port)
+        )
         self.close()
-        self.api_correlation.clear()
-        while self.pending:
-            _, pending = self.pending.popitem()
-            exc_info = sys.exc_info()
-            if any(exc_info):
-                pending.set_exception(exc_info[1])
-            else:
-                pending.set_exception(
-                    BrokerConnectionError(self.host, self.port)
-                )
 
     @gen.coroutine
     def read_message(self):
-- 
2.43.0


From 121a777acb772531f0306e75b63f575679148a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:32 +0000
Subject: [PATCH 07/42] fix: a bootstrap host that fails to answer does not
 stop the search for one that does

---
 kiel/cluster.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index e399be3..ef565ed 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -99,10 +99,14 @@ class Cluster(object):
                 log.exception("Error connecting to bootstrap host '%s'", host)
                 continue
 
-            response = yield conn.send(metadata.MetadataRequest(topics=[]))
-
-            conn.close()
-            break
+            try:
+                response = yield conn.send(metadata.MetadataRequest(topics=[]))
+                break
+            except Exception:
+                log.exception("Error getting metadata from '%s'", host)
+                continue
+            finally:
+                conn.close()
 
         if not response:
             raise NoBrokersError
-- 
2.43.0


From 4a031826873671cce685e13cb0fe8ebb3d91eae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:35 +0000
Subject: [PATCH 08/42] fix: a metadata refresh survives any failing broker and
 changes of the connections

---
 kiel/cluster.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index ef565ed..955a184 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -161,7 +161,7 @@ class Cluster(object):
             topics = []
 
         response = None
-        for conn in self.conns.values():
+        for conn in list(self.conns.values()):
             try:
                 response = yield conn.send(
                     metadata.MetadataRequest(topics=topics)
@@ -169,6 +169,11 @@ class Cluster(object):
                 break
             except (iostream.StreamClosedError, BrokerConnectionError):
                 continue
+            except Exception:
+                log.exception(
+                    "Error getting metadata from %s:%s", conn.host, conn.port
+                )
+                continue
 
         if not response:
             raise NoBrokersError
-- 
2.43.0


From 758889d889e480fee24f60718fcb246e8c4bb92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:37 +0000
Subject: [PATCH 09/42] fix: healing refreshes all topics so that missing ones
 do not drop the others

---
 kiel/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index 955a184..fa4f4d6 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -143,7 +143,7 @@ class Cluster(object):
         missing_topics = self.process_topics(response.topics)
 
         while missing_conns or missing_topics:
-            response = yield self.get_metadata(topics=list(missing_topics))
+            response = yield self.get_metadata()
             missing_conns = yield self.process_brokers(response.brokers)
             missing_topics = self.process_topics(response.topics)
 
-- 
2.43.0


From 1a4f1375c9f6a052d0396a4a1704dc056419c96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:58 +0000
Subject: [PATCH 10/42] fix: overlapping heals do not leave a second connection
 to a broker open

---
 kiel/cluster.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index fa4f4d6..f4d4f1e 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -201,6 +201,10 @@ class Cluster(object):
             try:
                 conn = Connection(broker.host, broker.port)
                 yield conn.connect()
+                if broker.broker_id in self.conns:
+                    # another heal connected to it in the meantime
+                    conn.close()
+                    continue
                 self.conns[broker.broker_id] = conn
             except iostream.StreamClosedError:
                 log.warn(
@@ -218,7 +222,8 @@ class Cluster(object):
                 continue
 
         for broker_id in to_drop:
-            self.conns[broker_id].abort()
+            if broker_id in self.conns:
+                self.conns[broker_id].abort()
 
         raise gen.Return(missing)
 
-- 
2.43.0


From 1dfa6e904e89460384faaecdbdfadf030a74805f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:04 +0000
Subject: [PATCH 11/42] fix: a heal that becomes necessary during another one
 is not forgotten

---
 kiel/clients/client.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kiel/clients/client.py b/kiel/clients/client.py
index aeff3c1..e171bab 100644
--- a/kiel/clients/client.py
+++ b/kiel/clients/client.py
@@ -102,7 +102,12 @@ class Client(object):
             results[int(iterator.current_index)] = result
 
         if self.heal_cluster:
-            yield self.cluster.heal()
+            # cleared first so that a need raised during the heal is not lost
             self.heal_cluster = False
+            try:
+                yield self.cluster.heal()
+            except Exception:
+                self.heal_cluster = True
+                raise
 
         raise gen.Return(results)
-- 
2.43.0


From dff0aba8dbe869622f4f52bed1d0db869b372bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:07 +0000
Subject: [PATCH 12/42] fix: a send to a broker without a connection does not
 fail the whole send

---
 kiel/clients/client.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/kiel/clients/client.py b/kiel/clients/client.py
index e171bab..66d2d15 100644
--- a/kiel/clients/client.py
+++ b/kiel/clients/client.py
@@ -73,10 +73,17 @@ class Client(object):
         Responses are handled in the order they come in, but this method does
         not yield a value until all responses are handled.
         """
-        iterator = gen.WaitIterator(**{
-            str(broker_id): self.cluster[broker_id].send(request)
-            for broker_id, request in six.iteritems(request_by_broker)
-        })
+        pending = {}
+        for broker_id, request in six.iteritems(request_by_broker):
+            try:
+                conn = self.cluster[broker_id]
+            except KeyError:
+                log.info("No connection to broker %s", broker_id)
+                self.heal_cluster = True
+                continue
+            pending[str(broker_id)] = conn.send(request)
+
+        iterator = gen.WaitIterator(**pending)
 
         results = {}
         while not iterator.done():
-- 
2.43.0


From 8d1240af6775091a09cdaece919c5cc920e99192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:08 +0000
Subject: [PATCH 13/42] fix: closing a client releases its connections even if
 winding down fails

---
 kiel/clients/client.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kiel/clients/client.py b/kiel/clients/client.py
index 66d2d15..2069880 100644
--- a/kiel/clients/client.py
+++ b/kiel/clients/client.py
@@ -40,9 +40,10 @@ class Client(object):
         """
         self.closing = True
 
-        yield self.wind_down()
-
-        self.cluster.stop()
+        try:
+            yield self.wind_down()
+        finally:
+            self.cluster.stop()
 
     @gen.coroutine
     def wind_down(self):
-- 
2.43.0


From b6d2182353e7044f23566881e04c31b8062cb930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:18 +0000
Subject: [PATCH 14/42] fix: error codes without a name are logged instead of
 raising KeyError

---
 kiel/clients/consumer.py | 2 +-
 kiel/clients/grouped.py  | 5 +++--
 kiel/clients/producer.py | 2 +-
 kiel/clients/single.py   | 2 +-
 4 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index 98863ba..4739c2f 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -169,7 +169,7 @@ class BaseConsumer(Client):
             else:
                 log.error(
                     "Got error %s for topic %s partition %s",
-                    ERROR_CODES[code], topic, partition.partition_id
+                    ERROR_CODES.get(code, code), topic, partition.partition_id
                 )
 
         return messages
diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index d996804..1dca76a 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -203,7 +203,8 @@ class GroupedConsumer(BaseConsumer):
             else:
                 log.error(
                     "Got error %s for topic %s partition %s",
-                    constants.ERROR_CODES[code], topic, partition.partition_id
+                    constants.ERROR_CODES.get(code, code),
+                    topic, partition.partition_id
                 )
                 raise exc.NoOffsetsError
 
@@ -276,7 +277,7 @@ class GroupedConsumer(BaseConsumer):
                 else:
                     log.error(
                         "Got error %s for topic %s partition %s",
-                        constants.ERROR_CODES[code],
+                        constants.ERROR_CODES.get(code, code),
                         topic, partition.partition_id
                     )
 
diff --git a/kiel/clients/producer.py b/kiel/clients/producer.py
index a70a4b3..03e8dc6 100644
--- a/kiel/clients/producer.py
+++ b/kiel/clients/producer.py
@@ -217,7 +217,7 @@ class Producer(Client):
                 else:
                     log.error(
                         "Got error %s for topic %s partition %s",
-                        ERROR_CODES[code], topic.name, partition.partition_id
+                        ERROR_CODES.get(code, code), topic.name, partition.partition_id
                     )
 
         self.sent.pop(response.correlation_id)
diff --git a/kiel/clients/single.py b/kiel/clients/single.py
index 3f749e6..7a3f018 100644
--- a/kiel/clients/single.py
+++ b/kiel/clients/single.py
@@ -115,7 +115,7 @@ class SingleConsumer(BaseConsumer):
             else:
                 log.error(
                     "Got error %s for topic %s partition %s",
-                    ERROR_CODES[code], topic, partition.partition_id
+                    ERROR_CODES.get(code, code), topic, partition.partition_id
                 )
                 raise NoOffsetsError
 
-- 
2.43.0


From 91e1ed24af2675a70168218d3fd28a50a075bac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:20 +0000
Subject: [PATCH 15/42] fix: messages of a produce request that is never
 answered are queued again

---
 kiel/clients/producer.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/kiel/clients/producer.py b/kiel/clients/producer.py
index 03e8dc6..906e678 100644
--- a/kiel/clients/producer.py
+++ b/kiel/clients/producer.py
@@ -187,7 +187,15 @@ class Producer(Client):
         for topic, msgs in six.iteritems(to_retry):
             self.queue_retries(topic, msgs)
 
-        yield self.send(requests)
+        try:
+            yield self.send(requests)
+        finally:
+            # whatever was not answered at all has to be sent again
+            for request in six.itervalues(requests):
+                unanswered = self.sent.pop(request.correlation_id, {})
+                for topic, partitions in six.iteritems(unanswered):
+                    for msgs in six.itervalues(partitions):
+                        self.unsent[topic].extend(msgs)
 
     def handle_produce_response(self, response):
         """
-- 
2.43.0


From 3619d57910e07069f7bb7d397e4403398ea72980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:23 +0000
Subject: [PATCH 16/42] fix: messages for a topic that left the metadata stay
 queued

---
 kiel/clients/producer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kiel/clients/producer.py b/kiel/clients/producer.py
index 906e678..f50641d 100644
--- a/kiel/clients/producer.py
+++ b/kiel/clients/producer.py
@@ -150,6 +150,9 @@ class Producer(Client):
         to_retry = collections.defaultdict(list)
 
         for topic, msgs in drain(self.unsent):
+            if not self.cluster.topics.get(topic):
+                to_retry[topic].extend(msgs)
+                continue
             for msg in msgs:
                 partition = self.partitioner(
                     msg.key, self.cluster.topics[topic]
-- 
2.43.0


From 6ede6ae416226f62e72db8772283dd1e59619390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:24 +0000
Subject: [PATCH 17/42] fix: an allocated partition without a known leader does
 not fail the consume

---
 kiel/clients/consumer.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index 4739c2f..fb59dd4 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -105,7 +105,15 @@ class BaseConsumer(Client):
 
         ordered = collections.defaultdict(list)
         for partition_id in self.allocation[topic]:
-            leader = self.cluster.get_leader(topic, partition_id)
+            try:
+                leader = self.cluster.get_leader(topic, partition_id)
+            except KeyError:
+                log.warning(
+                    "No leader known for topic %s partition %s",
+                    topic, partition_id
+                )
+                self.heal_cluster = True
+                continue
             ordered[leader].append(partition_id)
 
         requests = {}
-- 
2.43.0


From 780e05f0960a61b659432755e39565dec5c15be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:26 +0000
Subject: [PATCH 18/42] fix: values that are false are delivered like any other
 message

---
 kiel/clients/consumer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index fb59dd4..d8cee5f 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -139,7 +139,7 @@ class BaseConsumer(Client):
 #        log.debug(results)
         raise gen.Return([
             msg for messageset in results.values() for msg in messageset
-            if msg # Skip empty messages
+            if msg is not None # Skip empty messages
             # BUG: troubleshoot why there are None values
         ])
 
-- 
2.43.0


From 05d7f8b80dfc830b6f09b2585e122e9407e95132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:28 +0000
Subject: [PATCH 19/42] fix: start times are sent as whole seconds

---
 kiel/clients/single.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kiel/clients/single.py b/kiel/clients/single.py
index 7a3f018..8278949 100644
--- a/kiel/clients/single.py
+++ b/kiel/clients/single.py
@@ -135,10 +135,10 @@ def start_to_timestamp(start):
     or one of `SingleConsumer.BEGINNING` or `SingleConsumer.END`.
     """
     if isinstance(start, datetime.datetime):
-        offset_time = (start - EPOCH).total_seconds()
+        offset_time = int((start - EPOCH).total_seconds())
     elif isinstance(start, datetime.timedelta):
         now = calendar.timegm(time.gmtime())
-        offset_time = now - start.total_seconds()
+        offset_time = int(now - start.total_seconds())
     else:
         offset_time = start
 
-- 
2.43.0


From 48fde05de4ee21741e64d7baee02fa6b4671e265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:32 +0000
Subject: [PATCH 20/42] fix: offsets are not determined for a topic before it
 is known

---
 kiel/clients/consumer.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index d8cee5f..4bd135a 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -87,14 +87,6 @@ class BaseConsumer(Client):
         if self.closing:
             return
 
-        if topic not in self.synced_offsets:
-            try:
-                yield self.determine_offsets(topic, start)
-            except NoOffsetsError:
-                log.error("Unable to determine offsets for topic %s", topic)
-                raise gen.Return([])
-            self.synced_offsets.add(topic)
-
         if topic not in self.allocation or not self.allocation[topic]:
             log.debug("Consuming unknown topic %s, reloading metadata", topic)
             yield self.cluster.heal()
@@ -103,6 +95,14 @@ class BaseConsumer(Client):
             log.error("Consuming unknown topic %s and not auto-created", topic)
             raise gen.Return([])
 
+        if topic not in self.synced_offsets:
+            try:
+                yield self.determine_offsets(topic, start)
+            except NoOffsetsError:
+                log.error("Unable to determine offsets for topic %s", topic)
+                raise gen.Return([])
+            self.synced_offsets.add(topic)
+
         ordered = collections.defaultdict(list)
         for partition_id in self.allocation[topic]:
             try:
-- 
2.43.0


From 40ca9ad2ea71a837d2475254642ea0f718622389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:34 +0000
Subject: [PATCH 21/42] fix: an offset response without offsets is handled like
 an error

---
 kiel/clients/single.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/kiel/clients/single.py b/kiel/clients/single.py
index 8278949..f2e20be 100644
--- a/kiel/clients/single.py
+++ b/kiel/clients/single.py
@@ -104,6 +104,12 @@ class SingleConsumer(BaseConsumer):
         for partition in response.topics[0].partitions:
             code = partition.error_code
             if code == errors.no_error:
+                if not partition.offsets:
+                    log.error(
+                        "Got no offset for topic %s partition %s",
+                        topic, partition.partition_id
+                    )
+                    raise NoOffsetsError
                 offset = partition.offsets[0]
 #                log.debug("offset %d ==> ", self.offsets[topic][partition.partition_id])
                 if offset>=0:
-- 
2.43.0


From 5bf11ba88e7f74e066ab1bf90b62d9b1993fb76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:06 +0000
Subject: [PATCH 22/42] fix: a single consumer does not start at offset 0 while
 its offsets are unanswered

---
 kiel/clients/single.py | 55 +++++++++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 17 deletions(-)

diff --git a/kiel/clients/single.py b/kiel/clients/single.py
index f2e20be..2a8f994 100644
--- a/kiel/clients/single.py
+++ b/kiel/clients/single.py
@@ -52,7 +52,8 @@ class SingleConsumer(BaseConsumer):
         if need be and used for the "time" parameter for the offset requests.
 
         An offset request is sent to each of the leader brokers for the given
-        topic.
+        topic, repeated for the partitions answered with a retriable error.
+        A ``NoOffsetsError`` is raised if a leader did not answer at all.
         """
         log.info("Getting offsets for topic %s with start %s", topic, start)
 
@@ -69,22 +70,36 @@ class SingleConsumer(BaseConsumer):
                 ]
             )
 
-        requests = collections.defaultdict(request_factory)
-
-        for partition_id in self.allocation[topic]:
-            leader = self.cluster.get_leader(topic, partition_id)
-            requests[leader].topics[0].partitions.append(
-                offset.PartitionRequest(
-                    partition_id=partition_id,
-                    time=offset_time,
-                    max_offsets=1
+        answered = set()
+        while not answered.issuperset(self.allocation.get(topic, [])):
+            requests = collections.defaultdict(request_factory)
+
+            for partition_id in self.allocation[topic]:
+                if partition_id in answered:
+                    continue
+                leader = self.cluster.get_leader(topic, partition_id)
+                requests[leader].topics[0].partitions.append(
+                    offset.PartitionRequest(
+                        partition_id=partition_id,
+                        time=offset_time,
+                        max_offsets=1
+                    )
                 )
+
+            log.debug(
+                "Sending offset request to %d leaders.", len(requests.keys())
             )
+            results = yield self.send(requests)
+
+            for leader in requests:
+                if leader not in results:
+                    log.error("Broker %s did not answer with offsets.", leader)
+                    yield self.cluster.heal()
+                    raise NoOffsetsError
+                answered.update(results[leader])
 
-        log.debug(
-            "Sending offset request to %d leaders.", len(requests.keys())
-        )
-        yield self.send(requests)
+        if not answered:
+            raise NoOffsetsError
 
         raise gen.Return(True)
 
@@ -96,9 +111,13 @@ class SingleConsumer(BaseConsumer):
         the ``self.offsets`` structure.
 
         A retriable error code response will cause the cluster's ``heal()``
-        method to be called at the end of processing and the offending topic's
-        offsets to be re-evaluated on the next `consume()` call.
+        method to be called at the end of processing and the offset to be
+        requested again.
+
+        Returns the set of the partitions that got an offset.
         """
+        answered = set()
+
         # we only fetch one topic so we can assume only one comes back
         topic = response.topics[0].name
         for partition in response.topics[0].partitions:
@@ -115,9 +134,9 @@ class SingleConsumer(BaseConsumer):
                 if offset>=0:
                     self.offsets[topic][partition.partition_id] = offset
 #                log.debug("%d", self.offsets[topic][partition.partition_id])
+                answered.add(partition.partition_id)
             elif code in errors.retriable:
                 self.heal_cluster = True
-                self.synced_offsets.discard(topic)
             else:
                 log.error(
                     "Got error %s for topic %s partition %s",
@@ -125,6 +144,8 @@ class SingleConsumer(BaseConsumer):
                 )
                 raise NoOffsetsError
 
+        return answered
+
     @gen.coroutine
     def wind_down(self):
         """
-- 
2.43.0


From 848dfd51f112fd2bda5f62a5477aac374aa435e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:06 +0000
Subject: [PATCH 23/42] fix: a lost broker does not end the search for the
 group coordinator

---
 kiel/clients/grouped.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index 1dca76a..b8c86e5 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -112,7 +112,7 @@ class GroupedConsumer(BaseConsumer):
                 raise exc.NoBrokersError
             for broker_id in broker_ids:
                 results = yield self.send({broker_id: request})
-                determined = results[broker_id]
+                determined = results.get(broker_id, False)
                 if determined:
                     break
 
-- 
2.43.0


From af264f47825f6293d0ea2c63b6d76ba668fc5465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:09 +0000
Subject: [PATCH 24/42] fix: a lost group coordinator is looked up again
 instead of raising KeyError

---
 kiel/clients/grouped.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index b8c86e5..b61e7e2 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -164,8 +164,15 @@ class GroupedConsumer(BaseConsumer):
 
         retry = True
         while retry:
-            result = yield self.send({self.coordinator_id: request})
-            retry = result[self.coordinator_id]
+            if self.coordinator_id is None:
+                yield self.determine_coordinator()
+            coordinator_id = self.coordinator_id
+            result = yield self.send({coordinator_id: request})
+            if coordinator_id not in result:
+                log.error("No answer from coordinator %s", coordinator_id)
+                self.coordinator_id = None
+                raise exc.NoOffsetsError
+            retry = result[coordinator_id]
 
     def handle_offset_fetch_response(self, response):
         """
@@ -221,6 +228,10 @@ class GroupedConsumer(BaseConsumer):
         if metadata is None:
             metadata = "committed by %s" % self.name
 
+        if self.coordinator_id is None:
+            yield self.determine_coordinator()
+        coordinator_id = self.coordinator_id
+
         log.debug("Committing offsets for consumer group %s", self.group_name)
         request = offset_commit.OffsetCommitV0Request(
             group=self.group_name,
@@ -241,8 +252,12 @@ class GroupedConsumer(BaseConsumer):
             ]
         )
 
-        results = yield self.send({self.coordinator_id: request})
-        retry, adjust_metadata = results[self.coordinator_id]
+        results = yield self.send({coordinator_id: request})
+        if coordinator_id not in results:
+            log.error("No answer from coordinator %s", coordinator_id)
+            self.coordinator_id = None
+            return
+        retry, adjust_metadata = results[coordinator_id]
 
         if adjust_metadata:
             log.warn("Offset commit metadata '%s' was too long.", metadata)
-- 
2.43.0


From 567c04ae6d9dfa692b9e1b309e48927f4b0d52fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:11 +0000
Subject: [PATCH 25/42] fix: a topic stays to be committed until all of its
 partitions are

---
 kiel/clients/grouped.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index b61e7e2..bf988c2 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -279,10 +279,13 @@ class GroupedConsumer(BaseConsumer):
         adjust_metadata = False
 
         for topic in response.topics:
+            if all(p.error_code == errors.no_error for p in topic.partitions):
+                self.topics_to_commit.discard(topic.name)
+
             for partition in topic.partitions:
                 code = partition.error_code
                 if code == errors.no_error:
-                    self.topics_to_commit.discard(topic.name)
+                    continue
                 elif code in errors.retriable:
                     retry = True
                     self.heal_cluster = True
-- 
2.43.0


From eb28a38dbcbc65ef75f2097a4fc6e2b79ba8f56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:14 +0000
Subject: [PATCH 26/42] fix: consuming from a closed grouped consumer commits
 nothing

---
 kiel/clients/grouped.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index bf988c2..4b4a840 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -83,6 +83,9 @@ class GroupedConsumer(BaseConsumer):
         This is where the ``autocommit`` flag comes into play.  If the flag
         is set we call `commit_offsets()` here right off the bat.
         """
+        if self.closing:
+            return
+
         result = yield super(GroupedConsumer, self).consume(topic)
 
         if topic not in self.synced_offsets:
-- 
2.43.0


From be5d294d68cedfa916a9244e26c91aa32cb57197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:15 +0000
Subject: [PATCH 27/42] fix: a member without a share has an empty allocation

---
 kiel/zookeeper/allocator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kiel/zookeeper/allocator.py b/kiel/zookeeper/allocator.py
index 1caf62c..4c2f5e9 100644
--- a/kiel/zookeeper/allocator.py
+++ b/kiel/zookeeper/allocator.py
@@ -67,7 +67,7 @@ class PartitionAllocator(object):
         """
         Property representing the topics allocated for a specific consumer.
         """
-        return self.mapping[self.consumer_name]
+        return self.mapping.get(self.consumer_name, {})
 
     @property
     def members_path(self):
-- 
2.43.0


From 02adc5c70cf4d46a3c1668eaab91fe71f9efe4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:18 +0000
Subject: [PATCH 28/42] fix: the shared partition node is created with a
 readable value

---
 kiel/zookeeper/allocator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kiel/zookeeper/allocator.py b/kiel/zookeeper/allocator.py
index 4c2f5e9..50a4356 100644
--- a/kiel/zookeeper/allocator.py
+++ b/kiel/zookeeper/allocator.py
@@ -193,7 +193,10 @@ class PartitionAllocator(object):
         Sets the `partitions_collected` threading event when done.
         """
         if new_partitions is None:
-            self.conn.create(self.partition_path, value=self.partitions)
+            self.conn.create(
+                self.partition_path,
+                value=self.shared_set.serialize(self.partitions)
+            )
             return
 
         if new_partitions != self.partitions:
-- 
2.43.0


From 641a4f3c0fb221f1637ec64186b7aaac5270ee0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:20 +0000
Subject: [PATCH 29/42] fix: partitions can be removed from the shared set

---
 kiel/zookeeper/allocator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kiel/zookeeper/allocator.py b/kiel/zookeeper/allocator.py
index 50a4356..75b3dad 100644
--- a/kiel/zookeeper/allocator.py
+++ b/kiel/zookeeper/allocator.py
@@ -242,8 +242,9 @@ class PartitionAllocator(object):
         wait_on_event(self.connected)
 
         self.shared_set.remove_items(set([
-            ":".join([topic, partition_id])
-            for topic, partition_id in six.iteritems(old_partitions)
+            ":".join([topic, str(partition_id)])
+            for topic, partition_ids in six.iteritems(old_partitions)
+            for partition_id in partition_ids
         ]))
 
     def rebalance(self):
-- 
2.43.0


From 8791ae9c467c1f1fdd3ea02373a67415e5fcf9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:23 +0000
Subject: [PATCH 30/42] fix: a failing zookeeper connect does not hang the
 start of the allocator

---
 kiel/zookeeper/allocator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kiel/zookeeper/allocator.py b/kiel/zookeeper/allocator.py
index 75b3dad..bca024e 100644
--- a/kiel/zookeeper/allocator.py
+++ b/kiel/zookeeper/allocator.py
@@ -100,7 +100,7 @@ class PartitionAllocator(object):
         attempt = create_attempter(f)
 
         attempt(self.connect)
-        wait_on_event(self.connected)
+        attempt(wait_on_event, self.connected)
 
         attempt(self.party.start)
         attempt(self.shared_set.start)
-- 
2.43.0


From 40cde8c3694d571ebe3ef6d578362611317473fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:25 +0000
Subject: [PATCH 31/42] fix: the shared set is written as bytes

---
 kiel/zookeeper/shared_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kiel/zookeeper/shared_set.py b/kiel/zookeeper/shared_set.py
index 23b4afe..158ee82 100644
--- a/kiel/zookeeper/shared_set.py
+++ b/kiel/zookeeper/shared_set.py
@@ -85,7 +85,7 @@ class SharedSet(object):
         """
         Serializes the set data as a list in a JSON string.
         """
-        return json.dumps(list(data))
+        return json.dumps(list(data)).encode("utf-8")
 
     def deserialize(self, data):
         """
-- 
2.43.0


From cfcffd621f90a9044140dc29e1940add8af04a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:40 +0000
Subject: [PATCH 32/42] fix: the coordinator is looked up again when a broker
 is not the coordinator anymore

---
 kiel/clients/grouped.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index 4b4a840..8b21c3a 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -208,6 +208,8 @@ class GroupedConsumer(BaseConsumer):
                 )
                 retry = True
             elif code in errors.retriable:
+                if code == errors.not_coordinator:
+                    self.coordinator_id = None
                 self.heal_cluster = True
                 retry = True
             else:
@@ -290,6 +292,8 @@ class GroupedConsumer(BaseConsumer):
                 if code == errors.no_error:
                     continue
                 elif code in errors.retriable:
+                    if code == errors.not_coordinator:
+                        self.coordinator_id = None
                     retry = True
                     self.heal_cluster = True
                 elif code == errors.offset_metadata_too_large:
-- 
2.43.0


From cdbe94b5b283602466628b3f131016fa383f359a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:52 +0000
Subject: [PATCH 33/42] fix: a rebalance while offsets are determined makes
 them be determined again

---
 kiel/clients/consumer.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index 4bd135a..b740bc5 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -96,11 +96,20 @@ class BaseConsumer(Client):
             raise gen.Return([])
 
         if topic not in self.synced_offsets:
+            # a rebalance in the meantime clears the set and thus the marker
+            marker = object()
+            self.synced_offsets.add(marker)
             try:
                 yield self.determine_offsets(topic, start)
+                rebalanced = marker not in self.synced_offsets
             except NoOffsetsError:
                 log.error("Unable to determine offsets for topic %s", topic)
                 raise gen.Return([])
+            finally:
+                self.synced_offsets.discard(marker)
+            if rebalanced:
+                log.info("Rebalanced while determining offsets of %s", topic)
+                raise gen.Return([])
             self.synced_offsets.add(topic)
 
         ordered = collections.defaultdict(list)
-- 
2.43.0


From 9949d6f2ead56b98efeeeb92147c674f3f461127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:22 +0000
Subject: [PATCH 34/42] fix: positions invalidated by a rebalance are not
 committed

---
 kiel/clients/grouped.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index 8b21c3a..415024e 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -254,6 +254,7 @@ class GroupedConsumer(BaseConsumer):
                 )
                 for topic, partition_ids in six.iteritems(self.allocation)
                 if topic in self.topics_to_commit
+                and topic in self.synced_offsets
             ]
         )
 
-- 
2.43.0


From a9e784e254d68f878fffe731644f254e3ab1526c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:23 +0000
Subject: [PATCH 35/42] fix: a broker that left the metadata is dropped from
 the broker table

---
 kiel/cluster.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index f4d4f1e..5947389 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -224,6 +224,7 @@ class Cluster(object):
         for broker_id in to_drop:
             if broker_id in self.conns:
                 self.conns[broker_id].abort()
+                self.conns.pop(broker_id, None)
 
         raise gen.Return(missing)
 
-- 
2.43.0


From b9814bc3ce7aec2d5da224401102f8211e9da275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:00 +0000
Subject: [PATCH 36/42] fix: a heal under way when the cluster is stopped opens
 no more connections

---
 kiel/cluster.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index 5947389..a8d091f 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -30,6 +30,8 @@ class Cluster(object):
         self.topics = collections.defaultdict(list)
         self.leaders = collections.defaultdict(dict)
 
+        self.stopped = False
+
     def __getitem__(self, broker_id):
         """
         Proxies to the ``__getitem__`` of the underlying conns dictionary.
@@ -78,6 +80,8 @@ class Cluster(object):
         request.  Once a metadata request is successful the `heal()` method
         is called.
         """
+        self.stopped = False
+
         response = None
 
         for host in self.bootstrap_hosts:
@@ -142,7 +146,7 @@ class Cluster(object):
         missing_conns = yield self.process_brokers(response.brokers)
         missing_topics = self.process_topics(response.topics)
 
-        while missing_conns or missing_topics:
+        while (missing_conns or missing_topics) and not self.stopped:
             response = yield self.get_metadata()
             missing_conns = yield self.process_brokers(response.brokers)
             missing_topics = self.process_topics(response.topics)
@@ -195,14 +199,15 @@ class Cluster(object):
         missing = set()
 
         for broker in brokers:
-            if broker.broker_id in self.conns:
+            if self.stopped or broker.broker_id in self.conns:
                 continue
 
             try:
                 conn = Connection(broker.host, broker.port)
                 yield conn.connect()
-                if broker.broker_id in self.conns:
-                    # another heal connected to it in the meantime
+                if self.stopped or broker.broker_id in self.conns:
+                    # another heal connected to it in the meantime, or the
+                    # cluster was stopped
                     conn.close()
                     continue
                 self.conns[broker.broker_id] = conn
@@ -279,7 +284,9 @@ class Cluster(object):
 
     def stop(self):
         """
-        Simple method that calls ``close()`` on each connection.
+        Calls ``close()`` on each connection, a heal under way adds no more.
         """
+        self.stopped = True
+
         for conn in self.conns.values():
             conn.close()
-- 
2.43.0


From 2c27ace05b20312a70a4ad7cccf3ea8c4f4221f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:47 +0000
Subject: [PATCH 37/42] fix: a topic that vanishes while its offsets are
 determined has none

---
 kiel/clients/single.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kiel/clients/single.py b/kiel/clients/single.py
index 2a8f994..9d68b43 100644
--- a/kiel/clients/single.py
+++ b/kiel/clients/single.py
@@ -98,7 +98,8 @@ class SingleConsumer(BaseConsumer):
                     raise NoOffsetsError
                 answered.update(results[leader])
 
-        if not answered:
+        if not self.allocation.get(topic):
+            # gone in the meantime, what was answered may not be all of it
             raise NoOffsetsError
 
         raise gen.Return(True)
-- 
2.43.0


From 56bd1237b546c7b2e16f0bccab4ee4691eb529cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 38/42] fix: a log message lacked its argument

---
 kiel/clients/grouped.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index 415024e..e60f209 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -137,7 +137,12 @@ class GroupedConsumer(BaseConsumer):
             self.heal_cluster = True
             determined = False
         else:
-            log.error("Got error %s when determining coordinator")
+            log.error(
+                "Got error %s when determining coordinator",
+                constants.ERROR_CODES.get(
+                    response.error_code, response.error_code
+                )
+            )
             determined = True
 
         return determined
-- 
2.43.0


From d3dba3e4fe5c582f0d72df7f0579cac2853fa32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 39/42] fix: a topic consumed while a commit is under way stays
 to be committed

---
 kiel/clients/grouped.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index e60f209..922f651 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -263,9 +263,18 @@ class GroupedConsumer(BaseConsumer):
             ]
         )
 
-        results = yield self.send({coordinator_id: request})
+        # topics consumed while the commit is under way need another one
+        topics = [topic.name for topic in request.topics]
+        self.topics_to_commit.difference_update(topics)
+
+        try:
+            results = yield self.send({coordinator_id: request})
+        except Exception:
+            self.topics_to_commit.update(topics)
+            raise
         if coordinator_id not in results:
             log.error("No answer from coordinator %s", coordinator_id)
+            self.topics_to_commit.update(topics)
             self.coordinator_id = None
             return
         retry, adjust_metadata = results[coordinator_id]
@@ -280,8 +289,8 @@ class GroupedConsumer(BaseConsumer):
         """
         Handles responses from the "offset commit" api.
 
-        For successful responses the affected topics are dropped from the set
-        of topics that need commits.
+        Topics with a partition that failed go back to the set of topics that
+        need commits.
 
         In the special case of an ``offset_metadata_too_large`` error code
         the commit is retried with a blank metadata string.
@@ -290,8 +299,8 @@ class GroupedConsumer(BaseConsumer):
         adjust_metadata = False
 
         for topic in response.topics:
-            if all(p.error_code == errors.no_error for p in topic.partitions):
-                self.topics_to_commit.discard(topic.name)
+            if any(p.error_code != errors.no_error for p in topic.partitions):
+                self.topics_to_commit.add(topic.name)
 
             for partition in topic.partitions:
                 code = partition.error_code
-- 
2.43.0


From 89a3d4b0810422422f1ec382b93f8a982604899b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:00 +0000
Subject: [PATCH 40/42] fix: a message whose attributes name no codec was taken
 for a nested set

Only the lowest two bits of the attributes name a compression codec.
---
 kiel/protocol/messages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kiel/protocol/messages.py b/kiel/protocol/messages.py
index 142d7bd..23e67ee 100644
--- a/kiel/protocol/messages.py
+++ b/kiel/protocol/messages.py
@@ -137,7 +137,7 @@ class MessageSet(object):
                 # ending messages can sometimes be cut off
                 break
 
-            if message.attributes:  # compression involved, set is nested
+            if message.attributes & 0b00000011:  # compressed, set is nested
                 set_size = len(message.value)
                 nested_set, _ = cls.parse(message.value, 0, size=set_size)
                 messages.extend(nested_set.messages)
-- 
2.43.0


From a4fda96ad89b261027c89bb6747c86e67831f39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:43 +0000
Subject: [PATCH 41/42] fix: offset commit v1 and v2 requests did not have
 their protocol version's layout

---
 kiel/protocol/offset_commit.py | 12 +++++++-----
 kiel/protocol/request.py       |  3 ++-
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/kiel/protocol/offset_commit.py b/kiel/protocol/offset_commit.py
index e611f15..e92872a 100644
--- a/kiel/protocol/offset_commit.py
+++ b/kiel/protocol/offset_commit.py
@@ -78,7 +78,7 @@ class TopicV1Request(Part):
     """
     parts = (
         ("name", String),
-        ("partitions", PartitionV1Request),
+        ("partitions", Array.of(PartitionV1Request)),
     )
 
 
@@ -105,15 +105,16 @@ class OffsetCommitV1Request(Request):
       OffsetCommitV1Request =>
         group => String
         generation => Int32
-        consumer_id => Int32
+        consumer_id => String
         topics => [TopicV1Request]
     """
     api = "offset_commit"
+    version = 1
 
     parts = (
         ("group", String),
         ("generation", Int32),
-        ("consumer_id", Int32),
+        ("consumer_id", String),
         ("topics", Array.of(TopicV1Request)),
     )
 
@@ -125,16 +126,17 @@ class OffsetCommitV2Request(Request):
       OffsetCommitV2Request =>
         group => String
         generation => Int32
-        consumer_id => Int32
+        consumer_id => String
         retention_time => Int64
         topics => [TopicRequest]
     """
     api = "offset_commit"
+    version = 2
 
     parts = (
         ("group", String),
         ("generation", Int32),
-        ("consumer_id", Int32),
+        ("consumer_id", String),
         ("retention_time", Int64),
         ("topics", Array.of(TopicRequest)),
     )
diff --git a/kiel/protocol/request.py b/kiel/protocol/request.py
index 7980488..facebea 100644
--- a/kiel/protocol/request.py
+++ b/kiel/protocol/request.py
@@ -42,13 +42,14 @@ class Request(Part):
     responses and prefacing payloads with client/api metadata.
     """
     api = None
+    version = API_VERSION
 
     def __init__(self, **kwargs):
         super(Request, self).__init__(**kwargs)
 
         self.client_id = CLIENT_ID
         self.api_key = API_KEYS[self.api]
-        self.api_version = API_VERSION
+        self.api_version = self.version
         self.correlation_id = generate_correlation_id()
 
     def serialize(self):
-- 
2.43.0


From 4fed0bb29bc2043c47545a8933613c3052d77990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:19 +0000
Subject: [PATCH 42/42] fix: group metadata and assignments lacked the size of
 the field they are embedded in

---
 kiel/constants.py                |  2 +-
 kiel/protocol/describe_groups.py |  5 +++--
 kiel/protocol/join_group.py      | 26 ++++++++++++++++++------
 kiel/protocol/part.py            | 35 +++++++++++++++++++++++++++++++-
 kiel/protocol/sync_group.py      | 10 +++++----
 5 files changed, 64 insertions(+), 14 deletions(-)

diff --git a/kiel/constants.py b/kiel/constants.py
index fa47002..6843ed6 100644
--- a/kiel/constants.py
+++ b/kiel/constants.py
@@ -9,7 +9,7 @@ SUPPORTED_COMPRESSION = (None, GZIP, SNAPPY)
 
 CLIENT_ID = "kiel"
 
-#: The "api version" value sent over the wire.  Currently always 0
+#: The "api version" value sent over the wire.  0 unless a request states its own
 API_VERSION = 0
 #: Mapping of response api codes and their names
 API_KEYS = {
diff --git a/kiel/protocol/describe_groups.py b/kiel/protocol/describe_groups.py
index 61cce60..452c1a9 100644
--- a/kiel/protocol/describe_groups.py
+++ b/kiel/protocol/describe_groups.py
@@ -1,4 +1,4 @@
-from .part import Part
+from .part import Part, SizedPart
 from .request import Request
 from .response import Response
 from .primitives import Array, String, Int16, Int32, Bytes
@@ -45,11 +45,12 @@ class TopicAssignment(Part):
     )
 
 
-class Assignment(Part):
+class Assignment(SizedPart):
     """
     ::
 
       Assignment =>
+        size => Int32
         version => Int16
         topics => [TopicAssignment]
         user_data => Bytes
diff --git a/kiel/protocol/join_group.py b/kiel/protocol/join_group.py
index 41c8e49..9802dcb 100644
--- a/kiel/protocol/join_group.py
+++ b/kiel/protocol/join_group.py
@@ -1,4 +1,4 @@
-from .part import Part
+from .part import Part, SizedPart
 from .request import Request
 from .response import Response
 from .primitives import Array, String, Bytes, Int16, Int32
@@ -11,28 +11,42 @@ __all__ = [
     "JoinGroupRequest",
     "JoinGroupResponse",
     "GroupProtocol",
+    "ProtocolMetadata",
     "Member",
 ]
 
 
-class GroupProtocol(Part):
+class ProtocolMetadata(SizedPart):
     """
     ::
 
-      GroupProtocol =>
-        name => String
+      ProtocolMetadata =>
+        size => Int32
         version => Int16
-        subscription => Array.of(String)
+        subscription => [String]
         user_data => Bytes
     """
     parts = (
-        ("name", String),
         ("version", Int16),
         ("subscription", Array.of(String)),
         ("user_data", Bytes),
     )
 
 
+class GroupProtocol(Part):
+    """
+    ::
+
+      GroupProtocol =>
+        name => String
+        metadata => ProtocolMetadata
+    """
+    parts = (
+        ("name", String),
+        ("metadata", ProtocolMetadata),
+    )
+
+
 class JoinGroupRequest(Request):
     """
     ::
diff --git a/kiel/protocol/part.py b/kiel/protocol/part.py
index bc64c45..fded00d 100644
--- a/kiel/protocol/part.py
+++ b/kiel/protocol/part.py
@@ -1,4 +1,6 @@
-from .primitives import Primitive
+import struct
+
+from .primitives import Primitive, Int32
 
 
 class Part(object):
@@ -98,3 +100,34 @@ class Part(object):
             self.__class__.__name__,
             ", ".join([subpart_string(part) for part in self.parts])
         )
+
+
+class SizedPart(Part):
+    """
+    A `Part` that is embedded as the content of a bytes field.
+
+    Prefaced with its size in bytes, a 32-bit integer.  A null or empty field
+    holds no part at all and parses to ``None``.
+    """
+    def render(self, parts=None):
+        """
+        Renders just like the base ``Part`` class, with the size up front.
+        """
+        fmt, data = super(SizedPart, self).render(parts)
+
+        return Int32.fmt + fmt, [struct.calcsize("!" + fmt)] + data
+
+    @classmethod
+    def parse(cls, buff, offset):
+        """
+        Given a buffer and offset, returns the parsed value and new offset.
+
+        The new offset is the end of the field, whatever its content.
+        """
+        size, offset = Int32.parse(buff, offset)
+        if size <= 0:
+            return None, offset
+
+        instance, _ = super(SizedPart, cls).parse(buff, offset)
+
+        return instance, offset + size
diff --git a/kiel/protocol/sync_group.py b/kiel/protocol/sync_group.py
index 9a01719..04e041c 100644
--- a/kiel/protocol/sync_group.py
+++ b/kiel/protocol/sync_group.py
@@ -1,4 +1,4 @@
-from .part import Part
+from .part import Part, SizedPart
 from .request import Request
 from .response import Response
 from .primitives import Array, String, Bytes, Int16, Int32
@@ -11,6 +11,7 @@ __all__ = [
     "SyncGroupRequest",
     "SyncGroupResponse",
     "MemberAssignment",
+    "Assignment",
     "TopicAssignment",
 ]
 
@@ -29,11 +30,12 @@ class TopicAssignment(Part):
     )
 
 
-class Assignment(Part):
+class Assignment(SizedPart):
     """
     ::
 
       Assignment =>
+        size => Int32
         version => Int16
         topics => [TopicAssignment]
         user_data => Bytes
@@ -85,11 +87,11 @@ class SyncGroupResponse(Response):
 
       SyncGroupResponse =>
         error_code => Int16
-        assignments => [MemberAssignment]
+        assignment => Assignment
     """
     api = "sync_group"
 
     parts = (
         ("error_code", Int16),
-        ("assignments", Array.of(MemberAssignment)),
+        ("assignment", Assignment),
     )
-- 
2.43.0

