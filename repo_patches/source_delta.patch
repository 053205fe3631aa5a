From bc727a5a1a88bb83b60ecbd9b5540b70d5cfbc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:12 +0000
Subject: [PATCH 001/105] fix: move a subscription when its provider withdraws
 a topic or gets more expensive

---
 streamtasks/net/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/streamtasks/net/__init__.py b/streamtasks/net/__init__.py
index 3c5ee23..71bba52 100644
--- a/streamtasks/net/__init__.py
+++ b/streamtasks/net/__init__.py
@@ -302,11 +302,11 @@ class Switch:
       await self.send_to(OutTopicsChangedMessage(out_topics_added, out_topics_removed), [ conn for conn in self.link_manager.links if conn != origin ])
 
     resub_topics = set()
-    for pt in message.add:
-      if pt.id in self.in_topics:
-        topic_provider = next((conn for conn in self.link_manager.links if pt.id in conn.recv_topics), None)
-        if topic_provider is None or topic_provider.out_topics[pt.id] > pt.cost:
-          resub_topics.add(pt.id)
+    for topic in set(pt.id for pt in message.add | message.remove):
+      if topic in self.in_topics:
+        topic_provider = next((conn for conn in self.link_manager.links if topic in conn.recv_topics), None)
+        if topic_provider is None or topic_provider.out_topics.get(topic, float("inf")) > self.out_topics.get(topic):
+          resub_topics.add(topic)
     await self.request_in_topics_change(resub_topics, resub_topics) # resub to the better providers
 
   async def on_addresses_changed(self, message: AddressesChangedRecvMessage, origin: Link):
-- 
2.43.0


From e2dd9f531b6d1484a1b7aa8a83123caa0b42ee34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:31 +0000
Subject: [PATCH 002/105] fix: replace the previous cost of a re-announced
 topic or address

---
 streamtasks/net/__init__.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/streamtasks/net/__init__.py b/streamtasks/net/__init__.py
index 71bba52..31d784f 100644
--- a/streamtasks/net/__init__.py
+++ b/streamtasks/net/__init__.py
@@ -116,22 +116,24 @@ class Link(ABC):
 
     elif isinstance(message, OutTopicsChangedMessage):
       otc_message: OutTopicsChangedMessage = message
-      message = OutTopicsChangedRecvMessage(
-        set(PricedId(pt.id, pt.cost + self._cost) for pt in otc_message.add),
-        set(PricedId(t, self.out_topics[t]) for t in otc_message.remove if t in self.out_topics))
+      message = OutTopicsChangedRecvMessage(*self._apply_priced_cost(self.out_topics, otc_message.add, otc_message.remove))
       for address in otc_message.remove: self.out_topics.pop(address, None)
       for pt in message.add: self.out_topics[pt.id] = pt.cost
 
     elif isinstance(message, AddressesChangedMessage):
       ac_message: AddressesChangedMessage = message
-      message = AddressesChangedRecvMessage(
-        set(PricedId(pa.id, pa.cost + self._cost) for pa in ac_message.add),
-        set(PricedId(a, self.addresses[a]) for a in ac_message.remove if a in self.addresses))
+      message = AddressesChangedRecvMessage(*self._apply_priced_cost(self.addresses, ac_message.add, ac_message.remove))
       for address in ac_message.remove: self.addresses.pop(address, None)
       for pa in message.add: self.addresses[pa.id] = pa.cost
 
     return message
 
+  def _apply_priced_cost(self, known: dict[int, int], add: set[PricedId], remove: set[int]) -> tuple[set[PricedId], set[PricedId]]:
+    final_add = set(PricedId(p.id, p.cost + self._cost) for p in add)
+    final_add = set(p for p in final_add if p.id in remove or known.get(p.id) != p.cost)
+    replaced = set(p.id for p in final_add) # the previous cost of an id is replaced, not kept next to the new one
+    return final_add, set(PricedId(id, known[id]) for id in replaced.union(remove) if id in known)
+
 class TopicRemappingLink(Link): # NOTE: maybe this should just inherit a specific link...
   def __init__(self, link: Link, topic_id_map: dict[int, int]):
     super().__init__()
-- 
2.43.0


From e97d2573a2b21539f2b95da25ffacd5aa40ab97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:11 +0000
Subject: [PATCH 003/105] fix: withdraw the subscriptions of a closed link

---
 streamtasks/net/__init__.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/streamtasks/net/__init__.py b/streamtasks/net/__init__.py
index 31d784f..6912b95 100644
--- a/streamtasks/net/__init__.py
+++ b/streamtasks/net/__init__.py
@@ -236,14 +236,16 @@ class Switch:
     self.link_manager.accept_link(link, asyncio.create_task(self._run_link_receiving(link)))
 
   async def remove_link(self, link: Link):
+    if not self.link_manager.has_link(link): return
     self.link_manager.remove_link(link)
 
     recv_topics = link.recv_topics
+    removed_in_topics = self.in_topics.remove_many(link.in_topics)
     removed_topics, updated_topics = self.out_topics.remove_many(link.get_priced_out_topics())
-    updated_in_topics = recv_topics - removed_topics
+    updated_in_topics = set(topic for topic in recv_topics - removed_topics if topic in self.in_topics)
 
-    if len(updated_in_topics) > 0:
-      await self.request_in_topics_change(set(updated_in_topics), set())
+    if len(updated_in_topics) > 0 or len(removed_in_topics) > 0:
+      await self.request_in_topics_change(updated_in_topics, removed_in_topics)
 
     if len(removed_topics) > 0 or len(updated_topics) > 0:
       await self.broadcast(OutTopicsChangedMessage(updated_topics, removed_topics))
@@ -265,8 +267,8 @@ class Switch:
     change_map: dict[Link, InTopicsChangedMessage] = {}
 
     for topic in add_topics:
-      best_link = min(self.link_manager.links, key=lambda link: link.out_topics.get(topic, float('inf')))
-      if topic not in best_link.out_topics: continue
+      best_link = min(self.link_manager.links, key=lambda link: link.out_topics.get(topic, float('inf')), default=None)
+      if best_link is None or topic not in best_link.out_topics: continue
       if best_link not in change_map: change_map[best_link] = InTopicsChangedMessage(set(), set())
       change_map[best_link].add.add(topic)
 
-- 
2.43.0


From bd3da9dda54716e1e8c9783db9d1999cf3f26bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:03 +0000
Subject: [PATCH 004/105] fix: a closed link must not take the links of other
 peers down

---
 streamtasks/net/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/streamtasks/net/__init__.py b/streamtasks/net/__init__.py
index 6912b95..2d14504 100644
--- a/streamtasks/net/__init__.py
+++ b/streamtasks/net/__init__.py
@@ -256,7 +256,9 @@ class Switch:
 
   def stop_receiving(self): self.link_manager.cancel_all()
   async def send_to(self, message: Message, links: list[Link]):
-    for link in links: await link.send(message)
+    for link in list(links):
+      try: await link.send(message)
+      except ConnectionClosedError: pass # the closed link is removed by its own receiver
   async def broadcast(self, message: Message): await self.send_to(message, self.link_manager.links)
 
   async def send_remove_in_topic(self, topic: int):
@@ -279,7 +281,7 @@ class Switch:
           if conn not in change_map: change_map[conn] = InTopicsChangedMessage(set(), set())
           for topic in remove_sub: change_map[conn].remove.add(topic)
 
-    for conn, message in change_map.items(): await conn.send(message)
+    for conn, message in change_map.items(): await self.send_to(message, [ conn ])
 
   async def on_in_topics_changed(self, message: InTopicsChangedMessage, origin: Link):
     # todo: control stream
@@ -295,7 +297,7 @@ class Switch:
     if message.address not in self.addresses: return
     address_cost = self.addresses.get(message.address)
     found_conn = next(( conn for conn in self.link_manager.links if conn.addresses.get(message.address, -1) == address_cost ), None)
-    if found_conn is not None: await found_conn.send(message)
+    if found_conn is not None: await self.send_to(message, [ found_conn ])
 
   async def on_stream_message(self, message: TopicMessage, origin: Link):
     await self.send_to(message, [ link for link in self.link_manager.links if link != origin and message.topic in link.in_topics])
-- 
2.43.0


From 066090f12945a85dfd0849cd3a4d6bf6cee1a573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:23 +0000
Subject: [PATCH 005/105] fix: a closing link finishes withdrawing what it
 announced

---
 streamtasks/net/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/streamtasks/net/__init__.py b/streamtasks/net/__init__.py
index 2d14504..bac9f52 100644
--- a/streamtasks/net/__init__.py
+++ b/streamtasks/net/__init__.py
@@ -198,7 +198,9 @@ class LinkManager:
   def has_link(self, link: Link): return link in self._link_recv_tasks
   def accept_link(self, link: Link, receiver_task: asyncio.Task): self._link_recv_tasks[link] = receiver_task
   def remove_link(self, link: Link):
-    if link in self._link_recv_tasks: self._link_recv_tasks.pop(link).cancel()
+    if link not in self._link_recv_tasks: return
+    receiver_task = self._link_recv_tasks.pop(link)
+    if receiver_task is not asyncio.current_task(): receiver_task.cancel() # the receiver removes its own link
   def cancel_all(self):
     for task in self._link_recv_tasks.values(): task.cancel()
     self._link_recv_tasks.clear()
-- 
2.43.0


From 4c8064826a75f4eff21e40975ea32db7c105d8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:03 +0000
Subject: [PATCH 006/105] fix: a link being accepted misses no announcement

---
 streamtasks/net/__init__.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/streamtasks/net/__init__.py b/streamtasks/net/__init__.py
index bac9f52..41e0fd0 100644
--- a/streamtasks/net/__init__.py
+++ b/streamtasks/net/__init__.py
@@ -220,23 +220,23 @@ class Switch:
     await self.add_link(a)
     return b
   async def add_link(self, link: Link):
-    switch_out_topics = set(self.out_topics.items())
+    added_out_topics = self.out_topics.add_many(link.get_priced_out_topics())
+    added_addresses = self.addresses.add_many(link.get_priced_addresses())
+    added_in_topics = self.in_topics.add_many(link.in_topics)
+    # accepted before anything is awaited, so that the link misses no change made in the meantime
+    self.link_manager.accept_link(link, asyncio.create_task(self._run_link_receiving(link)))
+
+    switch_out_topics = set(self.out_topics.items()) - link.get_priced_out_topics()
     if len(switch_out_topics) > 0: await link.send(OutTopicsChangedMessage(switch_out_topics, set()))
 
-    switch_addresses = set(self.addresses.items())
+    switch_addresses = set(self.addresses.items()) - link.get_priced_addresses()
     if len(switch_addresses) > 0: await link.send(AddressesChangedMessage(switch_addresses, set()))
 
-    added_out_topics = self.out_topics.add_many(link.get_priced_out_topics())
-    if len(added_out_topics) > 0: await self.broadcast(OutTopicsChangedMessage(added_out_topics, set()))
-
-    added_addresses = self.addresses.add_many(link.get_priced_addresses())
-    if len(added_addresses) > 0: await self.broadcast(AddressesChangedMessage(added_addresses, set()))
-
-    added_in_topics = self.in_topics.add_many(link.in_topics)
+    other_links = [ conn for conn in self.link_manager.links if conn != link ]
+    if len(added_out_topics) > 0: await self.send_to(OutTopicsChangedMessage(added_out_topics, set()), other_links)
+    if len(added_addresses) > 0: await self.send_to(AddressesChangedMessage(added_addresses, set()), other_links)
     if len(added_in_topics) > 0: await self.request_in_topics_change(added_in_topics, set())
 
-    self.link_manager.accept_link(link, asyncio.create_task(self._run_link_receiving(link)))
-
   async def remove_link(self, link: Link):
     if not self.link_manager.has_link(link): return
     self.link_manager.remove_link(link)
-- 
2.43.0


From 4fa8f986c2f05268c6f6d1982bc01734e20dfade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:16 +0000
Subject: [PATCH 007/105] fix: a byte that breaks a partial sync word may start
 the next one

---
 streamtasks/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/connection.py b/streamtasks/connection.py
index 8b979fa..4ddc2f5 100644
--- a/streamtasks/connection.py
+++ b/streamtasks/connection.py
@@ -158,7 +158,7 @@ class RawStreamConnection(RawConnection):
     while sync_index < len(RawStreamConnection.SYNC_WORD):
       next_byte = await self._reader.readexactly(1)
       if RawStreamConnection.SYNC_WORD[sync_index] == next_byte[0]: sync_index += 1
-      else: sync_index = 0
+      else: sync_index = 1 if RawStreamConnection.SYNC_WORD[0] == next_byte[0] else 0 # the byte may start the sync word
     data_len, = struct.unpack("<L", await self._reader.readexactly(4))
     return await self._reader.readexactly(data_len)
 
-- 
2.43.0


From 0166e24f6bb9b189a59e22fa1dbe04ba3c59f2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:06 +0000
Subject: [PATCH 008/105] fix: a link nobody receives from any more is closed

---
 streamtasks/net/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streamtasks/net/__init__.py b/streamtasks/net/__init__.py
index 41e0fd0..22cfe37 100644
--- a/streamtasks/net/__init__.py
+++ b/streamtasks/net/__init__.py
@@ -349,4 +349,5 @@ class Switch:
       logging.error(f"Error receiving from link: {e}")
       raise e
     finally:
+      link.close() # nobody receives from it any more
       await self.remove_link(link)
-- 
2.43.0


From cd0453fa2e36365c7f040b91197d54df7f3bddd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:06 +0000
Subject: [PATCH 009/105] fix: a cancelled receive on a raw connection loses no
 message

---
 streamtasks/connection.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/streamtasks/connection.py b/streamtasks/connection.py
index 4ddc2f5..817ae93 100644
--- a/streamtasks/connection.py
+++ b/streamtasks/connection.py
@@ -86,6 +86,7 @@ class RawConnection(ABC):
     super().__init__()
     self._send_lock = asyncio.Lock()
     self._recv_lock = asyncio.Lock()
+    self._recv_task: asyncio.Task[bytes] | None = None
 
   async def init_client(self, extra_data: dict):
     try:
@@ -120,7 +121,11 @@ class RawConnection(ABC):
       await asyncio.shield(self._send(data))
   async def recv(self):
     async with self._recv_lock:
-      return await asyncio.shield(self._recv())
+      # a read outlives a cancelled receive, the next receive continues it
+      if self._recv_task is None: self._recv_task = asyncio.create_task(self._recv())
+      await asyncio.wait([self._recv_task])
+      recv_task, self._recv_task = self._recv_task, None
+      return recv_task.result()
 
   @abstractmethod
   async def _send(self, data: bytes): pass
-- 
2.43.0


From da1d30647409ff9ccef671206ca6d80d0637513b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:03 +0000
Subject: [PATCH 010/105] fix: a server checks the token of every connection,
 not only the first

---
 streamtasks/connection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamtasks/connection.py b/streamtasks/connection.py
index 817ae93..ececd58 100644
--- a/streamtasks/connection.py
+++ b/streamtasks/connection.py
@@ -104,10 +104,10 @@ class RawConnection(ABC):
     try:
       client_data = msgpack.unpackb(await self.recv())
       if not isinstance(client_data, dict): raise ValueError()
-      server_auth = extra_data.pop("auth", None)
+      server_auth = extra_data.get("auth", None) # kept for the next connection
       client_auth = client_data.get("auth", None)
       accepted = client_data.get("version", None) == _get_version_specifier() and client_auth == server_auth
-      server_data = { **extra_data, "accepted": accepted, "version": _get_version_specifier() }
+      server_data = { **{ k: v for k, v in extra_data.items() if k != "auth" }, "accepted": accepted, "version": _get_version_specifier() }
       await self.send(msgpack.packb(server_data))
       if not accepted: raise ConnectionError("Server rejected connection")
     except BaseException as e:
-- 
2.43.0


From 6b2c9a6acb1e24500233045cbe10bdf957ee3306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:03 +0000
Subject: [PATCH 011/105] fix: the reconnector pauses between attempts and
 survives every connection failure

---
 streamtasks/connection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/streamtasks/connection.py b/streamtasks/connection.py
index ececd58..280605e 100644
--- a/streamtasks/connection.py
+++ b/streamtasks/connection.py
@@ -74,9 +74,9 @@ class AutoReconnector(Worker):
           link.on_closed.append(functools.partial(self._async_connected.set, False))
           if link.closed: self._async_connected.set(False) # in case it closed already
           await self._async_connected.wait(False)
-          await asyncio.wait(self.delay)
-          logging.info("reconnecting")
-        except (ConnectionClosedError, ConnectionError): pass
+        except Exception as e: logging.info(f"connection failed: {e}")
+        await asyncio.sleep(self.delay)
+        logging.info("reconnecting")
     finally: await self.shutdown()
 
   async def wait_connected(self, connected: bool = True): await self._async_connected.wait(connected)
-- 
2.43.0


From a215081a90e54162c92f548a19e761949730f9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:03 +0000
Subject: [PATCH 012/105] fix: a connection lost while it is being linked does
 not stay counted

---
 streamtasks/connection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamtasks/connection.py b/streamtasks/connection.py
index 280605e..553012c 100644
--- a/streamtasks/connection.py
+++ b/streamtasks/connection.py
@@ -225,9 +225,9 @@ class StreamServerBase(ServerBase):
       connection = RawStreamConnection(reader, writer)
       await connection.init_server(self.handshake_data)
       link = RawConnectionLink(connection, self.cost)
-      await self.switch.add_link(link)
       self.on_connected()
       link.on_closed.append(self.on_disconnected)
+      await self.switch.add_link(link)
     except BaseException as e: logging.warning(f"Failed to initialize connection. Error: {e}")
 
 class RawWebsocketConnection(RawConnection):
@@ -263,10 +263,10 @@ class WebsocketServer(ServerBase):
       connection = RawWebsocketConnection(socket)
       await connection.init_server(self.handshake_data)
       link = RawConnectionLink(connection, self.cost)
-      await self.switch.add_link(link)
       self.on_connected()
       link.on_closed.append(self.on_disconnected)
       link.on_closed.append(close_event.set)
+      await self.switch.add_link(link)
       await close_event.wait()
     except BaseException as e: logging.warning(f"Failed to initialize connection. Error: {e}")
 
-- 
2.43.0


From 741fd84ea2f2f2913d264d5f3c911a5f7091618a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:03 +0000
Subject: [PATCH 013/105] fix: a server with live connections can be stopped

---
 streamtasks/connection.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/streamtasks/connection.py b/streamtasks/connection.py
index 553012c..f3fdde1 100644
--- a/streamtasks/connection.py
+++ b/streamtasks/connection.py
@@ -282,7 +282,8 @@ class TCPSocketServer(StreamServerBase):
 
   async def run_server(self):
     server = await asyncio.start_server(self.on_connection, self.host, self.port)
-    async with server: await server.serve_forever()
+    try: await asyncio.Future()
+    finally: server.close() # the connections are closed with their links
 
 class UnixSocketServer(StreamServerBase):
   def __init__(self, path: str, cost: int, handshake_data: dict):
@@ -292,7 +293,8 @@ class UnixSocketServer(StreamServerBase):
 
   async def run_server(self):
     server = await asyncio.start_unix_server(self.on_connection, self.path)
-    async with server: await server.serve_forever()
+    try: await asyncio.Future()
+    finally: server.close() # the connections are closed with their links
 
 def get_node_socket_path(node_name: str | None):
   if node_name is None: node_name = NODE_NAME()
-- 
2.43.0


From 1fe2b99e290a00c8f48b465f36d9fa87b7ccb576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:56 +0000
Subject: [PATCH 014/105] fix: what a switch sends for one change can not be
 overtaken by what it sends for a later one

---
 streamtasks/net/__init__.py | 49 +++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 19 deletions(-)

diff --git a/streamtasks/net/__init__.py b/streamtasks/net/__init__.py
index 22cfe37..5aabcd6 100644
--- a/streamtasks/net/__init__.py
+++ b/streamtasks/net/__init__.py
@@ -226,16 +226,18 @@ class Switch:
     # accepted before anything is awaited, so that the link misses no change made in the meantime
     self.link_manager.accept_link(link, asyncio.create_task(self._run_link_receiving(link)))
 
+    sends = []
     switch_out_topics = set(self.out_topics.items()) - link.get_priced_out_topics()
-    if len(switch_out_topics) > 0: await link.send(OutTopicsChangedMessage(switch_out_topics, set()))
+    if len(switch_out_topics) > 0: sends.append(self.send_to(OutTopicsChangedMessage(switch_out_topics, set()), [ link ]))
 
     switch_addresses = set(self.addresses.items()) - link.get_priced_addresses()
-    if len(switch_addresses) > 0: await link.send(AddressesChangedMessage(switch_addresses, set()))
+    if len(switch_addresses) > 0: sends.append(self.send_to(AddressesChangedMessage(switch_addresses, set()), [ link ]))
 
     other_links = [ conn for conn in self.link_manager.links if conn != link ]
-    if len(added_out_topics) > 0: await self.send_to(OutTopicsChangedMessage(added_out_topics, set()), other_links)
-    if len(added_addresses) > 0: await self.send_to(AddressesChangedMessage(added_addresses, set()), other_links)
-    if len(added_in_topics) > 0: await self.request_in_topics_change(added_in_topics, set())
+    if len(added_out_topics) > 0: sends.append(self.send_to(OutTopicsChangedMessage(added_out_topics, set()), other_links))
+    if len(added_addresses) > 0: sends.append(self.send_to(AddressesChangedMessage(added_addresses, set()), other_links))
+    if len(added_in_topics) > 0: sends.append(self.request_in_topics_change(added_in_topics, set()))
+    await asyncio.gather(*sends)
 
   async def remove_link(self, link: Link):
     if not self.link_manager.has_link(link): return
@@ -246,27 +248,32 @@ class Switch:
     removed_topics, updated_topics = self.out_topics.remove_many(link.get_priced_out_topics())
     updated_in_topics = set(topic for topic in recv_topics - removed_topics if topic in self.in_topics)
 
+    sends = []
     if len(updated_in_topics) > 0 or len(removed_in_topics) > 0:
-      await self.request_in_topics_change(updated_in_topics, removed_in_topics)
+      sends.append(self.request_in_topics_change(updated_in_topics, removed_in_topics))
 
     if len(removed_topics) > 0 or len(updated_topics) > 0:
-      await self.broadcast(OutTopicsChangedMessage(updated_topics, removed_topics))
+      sends.append(self.broadcast(OutTopicsChangedMessage(updated_topics, removed_topics)))
 
     removed_addresses, updated_addresses = self.addresses.remove_many(link.get_priced_addresses())
     if len(removed_addresses) > 0 or len(updated_addresses) > 0:
-      await self.broadcast(AddressesChangedMessage(updated_addresses, removed_addresses))
+      sends.append(self.broadcast(AddressesChangedMessage(updated_addresses, removed_addresses)))
+    await asyncio.gather(*sends)
 
   def stop_receiving(self): self.link_manager.cancel_all()
-  async def send_to(self, message: Message, links: list[Link]):
-    for link in list(links):
-      try: await link.send(message)
-      except ConnectionClosedError: pass # the closed link is removed by its own receiver
-  async def broadcast(self, message: Message): await self.send_to(message, self.link_manager.links)
+  async def _send_to_link(self, message: Message, link: Link):
+    try: await link.send(message)
+    except ConnectionClosedError: pass # the closed link is removed by its own receiver
+  def send_to(self, message: Message, links: list[Link]) -> asyncio.Future:
+    # the sends begin right here, so that what follows from a later change can not overtake what follows from this one
+    loop = asyncio.get_running_loop()
+    return asyncio.gather(*[ asyncio.Task(self._send_to_link(message, link), loop=loop, eager_start=True) for link in list(links) ])
+  def broadcast(self, message: Message) -> asyncio.Future: return self.send_to(message, self.link_manager.links)
 
   async def send_remove_in_topic(self, topic: int):
     await self.send_to(InTopicsChangedMessage(set(), set([topic])), [ conn for conn in self.link_manager.links if topic in conn.recv_topics ])
 
-  async def request_in_topics_change(self, add_topics: set[int], remove_topics: set[int]):
+  def request_in_topics_change(self, add_topics: set[int], remove_topics: set[int]) -> asyncio.Future:
     remove_topics_set = set(remove_topics)
     change_map: dict[Link, InTopicsChangedMessage] = {}
 
@@ -283,17 +290,19 @@ class Switch:
           if conn not in change_map: change_map[conn] = InTopicsChangedMessage(set(), set())
           for topic in remove_sub: change_map[conn].remove.add(topic)
 
-    for conn, message in change_map.items(): await self.send_to(message, [ conn ])
+    return asyncio.gather(*[ self.send_to(message, [ conn ]) for conn, message in change_map.items() ])
 
   async def on_in_topics_changed(self, message: InTopicsChangedMessage, origin: Link):
     # todo: control stream
     final_add = self.in_topics.add_many(message.add)
     final_remove = self.in_topics.remove_many(message.remove)
 
+    sends = []
     for control_message in [ self.stream_controls[topic].to_message(topic) for topic in message.add if topic in self.stream_controls ]:
-      await origin.send(control_message)
+      sends.append(self.send_to(control_message, [ origin ]))
 
-    await self.request_in_topics_change(final_add, final_remove)
+    sends.append(self.request_in_topics_change(final_add, final_remove))
+    await asyncio.gather(*sends)
 
   async def on_addressed_message(self, message: AddressedMessage, origin: Link):
     if message.address not in self.addresses: return
@@ -306,8 +315,9 @@ class Switch:
 
   async def on_out_topics_changed(self, message: OutTopicsChangedRecvMessage, origin: Link):
     out_topics_added, out_topics_removed = self.out_topics.change_many(message.add, message.remove)
+    sends = []
     if len(out_topics_added) > 0 or len(out_topics_removed) > 0:
-      await self.send_to(OutTopicsChangedMessage(out_topics_added, out_topics_removed), [ conn for conn in self.link_manager.links if conn != origin ])
+      sends.append(self.send_to(OutTopicsChangedMessage(out_topics_added, out_topics_removed), [ conn for conn in self.link_manager.links if conn != origin ]))
 
     resub_topics = set()
     for topic in set(pt.id for pt in message.add | message.remove):
@@ -315,7 +325,8 @@ class Switch:
         topic_provider = next((conn for conn in self.link_manager.links if topic in conn.recv_topics), None)
         if topic_provider is None or topic_provider.out_topics.get(topic, float("inf")) > self.out_topics.get(topic):
           resub_topics.add(topic)
-    await self.request_in_topics_change(resub_topics, resub_topics) # resub to the better providers
+    sends.append(self.request_in_topics_change(resub_topics, resub_topics)) # resub to the better providers
+    await asyncio.gather(*sends)
 
   async def on_addresses_changed(self, message: AddressesChangedRecvMessage, origin: Link):
     addresses_added, addresses_removed = self.addresses.change_many(message.add, message.remove)
-- 
2.43.0


From d16e98f069c763be7854ce7251b436ab190ba351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:27 +0000
Subject: [PATCH 015/105] fix: an out topic that starts after its topic was
 requested knows that it is requested

---
 streamtasks/client/__init__.py | 1 +
 streamtasks/client/topic.py    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/streamtasks/client/__init__.py b/streamtasks/client/__init__.py
index d88d5dd..8c7ed40 100644
--- a/streamtasks/client/__init__.py
+++ b/streamtasks/client/__init__.py
@@ -42,6 +42,7 @@ class Client:
       try: await self._receive_task
       except asyncio.CancelledError: pass
 
+  def is_requested(self, topic: int): return topic in self._subscribed_provided_topics
   def get_free_port(self): return self._port_generator.next()
 
   async def send_to(self, endpoint: Endpoint, data: RawData):
diff --git a/streamtasks/client/topic.py b/streamtasks/client/topic.py
index 1a6e043..0df836d 100644
--- a/streamtasks/client/topic.py
+++ b/streamtasks/client/topic.py
@@ -197,6 +197,7 @@ class _OutTopicReceiver(Receiver[tuple[_OutTopicAction, bool]]):
     self._topic = topic
 
   def _put_msg(self, action: _OutTopicAction, data: bool): self._recv_queue.put_nowait((action, data))
+  async def _on_start_recv(self): self._put_msg(_OutTopicAction.SET_REQUESTED, self._client.is_requested(self._topic))
   def on_message(self, message: Message):
     if isinstance(message, InTopicsChangedMessage):
       if self._topic in message.add: self._put_msg(_OutTopicAction.SET_REQUESTED, True)
-- 
2.43.0


From b7a61d04e458ba03e3eb226df37101ab36a15565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:27 +0000
Subject: [PATCH 016/105] fix: an out topic used by several keeps receiving
 requests until the last of them stops

---
 streamtasks/client/receiver.py | 2 ++
 streamtasks/client/topic.py    | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/streamtasks/client/receiver.py b/streamtasks/client/receiver.py
index 778c64e..e668101 100644
--- a/streamtasks/client/receiver.py
+++ b/streamtasks/client/receiver.py
@@ -33,6 +33,8 @@ class Receiver(ABC, Generic[T]):
     await asyncio.sleep(0)
     await self._on_stop_recv()
 
+  @property
+  def is_receiving(self): return self._receiving_count > 0
   def empty(self): return self._recv_queue.empty()
   async def get(self): return await self._recv_queue.get()
   async def recv(self):
diff --git a/streamtasks/client/topic.py b/streamtasks/client/topic.py
index 0df836d..8ad1351 100644
--- a/streamtasks/client/topic.py
+++ b/streamtasks/client/topic.py
@@ -223,7 +223,7 @@ class OutTopic(_TopicBase):
 
   async def stop(self):
     await self._receiver.stop_recv()
-    if self._receiver_task is not None:
+    if self._receiver_task is not None and not self._receiver.is_receiving:
       self._receiver_task.cancel()
       self._receiver_task = None
 
-- 
2.43.0


From e5667477325dfc757ce2c04c5e74982d94a2889f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:18 +0000
Subject: [PATCH 017/105] fix: an in topic that starts after the pause state
 was received learns it

---
 streamtasks/client/__init__.py | 6 +++++-
 streamtasks/client/topic.py    | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/streamtasks/client/__init__.py b/streamtasks/client/__init__.py
index 8c7ed40..a2b24a0 100644
--- a/streamtasks/client/__init__.py
+++ b/streamtasks/client/__init__.py
@@ -8,7 +8,7 @@ from streamtasks.utils import IdGenerator, IdTracker, AwaitableIdTracker
 from streamtasks.net.serialization import RawData
 from streamtasks.net import Endpoint, EndpointOrAddress, Link, endpoint_or_address_to_endpoint
 from streamtasks.net.helpers import ids_to_priced_ids
-from streamtasks.net.messages import AddressedMessage, AddressesChangedMessage, InTopicsChangedMessage, OutTopicsChangedMessage, TopicControlData, TopicDataMessage, TopicMessage
+from streamtasks.net.messages import AddressedMessage, AddressesChangedMessage, InTopicsChangedMessage, OutTopicsChangedMessage, TopicControlData, TopicControlMessage, TopicDataMessage, TopicMessage
 from streamtasks.services.constants import NetworkAddresses, NetworkPorts
 from streamtasks.client.fetch import FetchError, FetchReponseReceiver, FetchRequestMessage, FetchResponseMessage
 
@@ -26,6 +26,7 @@ class Client:
     self._subscribed_provided_topics = AwaitableIdTracker()
     self._in_topics = IdTracker()
     self._out_topics = IdTracker()
+    self._topic_controls: dict[int, TopicControlData] = {}
 
   @property
   def address(self): return self._address
@@ -43,6 +44,7 @@ class Client:
       except asyncio.CancelledError: pass
 
   def is_requested(self, topic: int): return topic in self._subscribed_provided_topics
+  def get_topic_control(self, topic: int): return self._topic_controls.get(topic, None)
   def get_free_port(self): return self._port_generator.next()
 
   async def send_to(self, endpoint: Endpoint, data: RawData):
@@ -97,6 +99,7 @@ class Client:
     if len(actually_added) > 0: await self._link.send(InTopicsChangedMessage(set(actually_added), set()))
   async def unregister_in_topics(self, topics: Iterable[int], force: bool = False):
     actually_removed = self._in_topics.remove_many(topics, force=force)
+    for topic in actually_removed: self._topic_controls.pop(topic, None)
     if len(actually_removed) > 0: await self._link.send(InTopicsChangedMessage(set(), set(actually_removed)))
 
   async def fetch(self, endpoint: EndpointOrAddress, descriptor: str, body: Any):
@@ -137,6 +140,7 @@ class Client:
         await self._started_event.wait()
         if isinstance(message, InTopicsChangedMessage): self._subscribed_provided_topics.change_many(message.add, message.remove)
         if isinstance(message, TopicMessage) and message.topic not in self._in_topics: continue
+        if isinstance(message, TopicControlMessage): self._topic_controls[message.topic] = message.to_data()
         for receiver in self._receivers:
           receiver.on_message(message)
     finally:
diff --git a/streamtasks/client/topic.py b/streamtasks/client/topic.py
index 8ad1351..811812d 100644
--- a/streamtasks/client/topic.py
+++ b/streamtasks/client/topic.py
@@ -62,6 +62,9 @@ class _InTopicReceiver(Receiver[tuple[_InTopicAction, None | int | TopicControlD
     self._topic = topic
 
   def _put_msg(self, action: _InTopicAction, data: None | int | TopicControlData | RawData): self._recv_queue.put_nowait((action, data))
+  async def _on_start_recv(self):
+    control_data = self._client.get_topic_control(self._topic)
+    if control_data is not None: self._put_msg(_InTopicAction.SET_CONTROL, control_data)
 
   def on_message(self, message: Message):
     if isinstance(message, OutTopicsChangedMessage):
-- 
2.43.0


From c80ebdf2e37c31443e03cae336bdcdb23f017f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:32 +0000
Subject: [PATCH 018/105] fix: a receiver that starts while the last one stops
 receives

---
 streamtasks/client/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/streamtasks/client/__init__.py b/streamtasks/client/__init__.py
index a2b24a0..b999621 100644
--- a/streamtasks/client/__init__.py
+++ b/streamtasks/client/__init__.py
@@ -125,6 +125,8 @@ class Client:
       self._receive_task.cancel()
       try: await self._receive_task
       except asyncio.CancelledError: pass
+      if len(self._receivers) > 0: # enabled while the task was stopping
+        self._receive_task = self._receive_task or asyncio.create_task(self._task_receive())
 
   def set_address_name(self, name: str, address: Optional[int]):
     if address is None: self._address_resolver_cache.pop(name, None)
-- 
2.43.0


From 09760488c752923deeceb163970966bee486dc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:38 +0000
Subject: [PATCH 019/105] fix: a message one receiver can not read does not end
 the receiving of the client

---
 streamtasks/client/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/streamtasks/client/__init__.py b/streamtasks/client/__init__.py
index b999621..d26ba46 100644
--- a/streamtasks/client/__init__.py
+++ b/streamtasks/client/__init__.py
@@ -1,5 +1,6 @@
 from typing import Iterable, Optional, Any, Union
 import asyncio
+import logging
 from streamtasks.client.discovery import request_addresses
 from streamtasks.client.receiver import Receiver
 from streamtasks.client.topic import InTopic, InTopicSynchronizer, OutTopic, InTopicsContext, OutTopicsContext, SynchronizedInTopic
@@ -144,6 +145,7 @@ class Client:
         if isinstance(message, TopicMessage) and message.topic not in self._in_topics: continue
         if isinstance(message, TopicControlMessage): self._topic_controls[message.topic] = message.to_data()
         for receiver in self._receivers:
-          receiver.on_message(message)
+          try: receiver.on_message(message)
+          except Exception as e: logging.debug(f"receiver failed to read a message: {e}") # must not end the receiving of the others
     finally:
       self._receive_task = None
-- 
2.43.0


From 77db0ba799d3cfe53a65c022409e55d2450887d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:38 +0000
Subject: [PATCH 020/105] fix: the status code of an error with any body can be
 read

---
 streamtasks/client/fetch.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/streamtasks/client/fetch.py b/streamtasks/client/fetch.py
index 3c1552a..e9fbf40 100644
--- a/streamtasks/client/fetch.py
+++ b/streamtasks/client/fetch.py
@@ -52,7 +52,9 @@ class FetchError(BaseException):
     self.body = body
 
   @property
-  def status_code(self): return FetchErrorStatusCode(self.body[0]) if self.body[0] in FetchErrorStatusCode._value2member_map_ else None
+  def status_code(self):
+    try: return FetchErrorStatusCode(self.body[0])
+    except (ValueError, TypeError, LookupError): return None
 
   def __str__(self) -> str:
     if isinstance(self.body, tuple) and len(self.body) == 2 and self.body[0] in FetchErrorStatusCode._value2member_map_:
-- 
2.43.0


From f008d5212d1ca0ca9b09cf8530883ec8786308d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:38 +0000
Subject: [PATCH 021/105] fix: a receiver whose start fails or is cancelled
 does not stay enabled and can be started again

---
 streamtasks/client/receiver.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/streamtasks/client/receiver.py b/streamtasks/client/receiver.py
index e668101..1534ae2 100644
--- a/streamtasks/client/receiver.py
+++ b/streamtasks/client/receiver.py
@@ -22,9 +22,14 @@ class Receiver(ABC, Generic[T]):
   async def start_recv(self):
     self._receiving_count += 1
     if self._receiving_count > 1: return
-    await self._client.enable_receiver(self)
-    await asyncio.sleep(0)
-    await self._on_start_recv()
+    try:
+      await self._client.enable_receiver(self)
+      await asyncio.sleep(0)
+      await self._on_start_recv()
+    except BaseException: # not started
+      self._receiving_count = max(0, self._receiving_count - 1)
+      if self._receiving_count == 0: await self._client.disable_receiver(self)
+      raise
 
   async def stop_recv(self):
     self._receiving_count = max(0, self._receiving_count - 1)
-- 
2.43.0


From 1dcb7d7554301c7f2651b12214621ca1ffa1a1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:39 +0000
Subject: [PATCH 022/105] fix: a prioritized synchronizer holds lower
 priorities back until the higher one is done

---
 streamtasks/client/topic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/client/topic.py b/streamtasks/client/topic.py
index 811812d..818d5d5 100644
--- a/streamtasks/client/topic.py
+++ b/streamtasks/client/topic.py
@@ -149,7 +149,7 @@ class PrioritizedSequentialInTopicSynchronizer(SequentialInTopicSynchronizer):
     self._done_topics = set()
 
   async def wait_for(self, topic_id: int, timestamp: int) -> bool:
-    if topic_id is self._done_topics: self._done_topics.remove(topic_id)
+    self._done_topics.discard(topic_id)
     return await super().wait_for(topic_id, timestamp)
 
   def start_receive(self, topic_id: int):
-- 
2.43.0


From 8d8b140dace3b8342a5a125a1f2b458544ab4ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:39 +0000
Subject: [PATCH 023/105] fix: resuming a synchronized topic that was not
 paused does not set back its time

---
 streamtasks/client/topic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/client/topic.py b/streamtasks/client/topic.py
index 818d5d5..1388e3b 100644
--- a/streamtasks/client/topic.py
+++ b/streamtasks/client/topic.py
@@ -134,7 +134,7 @@ class SequentialInTopicSynchronizer(InTopicSynchronizer):
 
   async def set_paused(self, topic_id: int, paused: bool):
     if paused: self._set_topic_timestamp(topic_id, None)
-    else: self._set_topic_timestamp(topic_id, self.min_timestamp)
+    else: self._set_topic_timestamp(topic_id, self._topic_timestamps.get(topic_id, self.min_timestamp)) # keep the time of a topic that was not paused
 
   def _is_waiting(self, topic_id: int, timestamp: int): return self.min_timestamp < timestamp
   def _set_topic_timestamp(self, topic_id: int, timestamp: int | None):
-- 
2.43.0


From d0995c8017c8606fd591bcbfcf4fd21d64adb393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:02 +0000
Subject: [PATCH 024/105] fix: a request for a negative number of ids is
 refused instead of making ids be handed out twice

---
 streamtasks/client/discovery.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/streamtasks/client/discovery.py b/streamtasks/client/discovery.py
index c401ce6..9638b18 100644
--- a/streamtasks/client/discovery.py
+++ b/streamtasks/client/discovery.py
@@ -1,7 +1,7 @@
 from contextlib import asynccontextmanager
 import secrets
 from typing import TYPE_CHECKING, Optional
-from pydantic import BaseModel, ValidationError, field_validator
+from pydantic import BaseModel, NonNegativeInt, ValidationError, field_validator
 from streamtasks.client.broadcast import BroadcastReceiver
 from streamtasks.client.receiver import Receiver
 from streamtasks.client.signal import send_signal
@@ -48,7 +48,7 @@ class TopicSpaceResponseMessage(BaseModel):
   topic_id_map: list[tuple[int, int]]
 
 class GenerateAddressesRequestMessageBase(BaseModel):
-  count: int
+  count: NonNegativeInt
 
 class GenerateAddressesRequestMessage(GenerateAddressesRequestMessageBase):
   request_id: int
@@ -60,7 +60,7 @@ class GenerateAddressesResponseMessage(GenerateAddressesResponseMessageBase):
   request_id: int
 
 class GenerateTopicsRequestBody(BaseModel):
-  count: int
+  count: NonNegativeInt
 
 
 class GenerateTopicsResponseBody(BaseModel):
-- 
2.43.0


From ea68c1caf44437cf24a255697af1b68c749f34f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:02 +0000
Subject: [PATCH 025/105] fix: a client forgets an address name it
 unregistered, and can register any address

---
 streamtasks/client/discovery.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamtasks/client/discovery.py b/streamtasks/client/discovery.py
index 9638b18..290e343 100644
--- a/streamtasks/client/discovery.py
+++ b/streamtasks/client/discovery.py
@@ -161,7 +161,7 @@ async def get_topic_space_translation(client: 'Client', topic_space_id: int, top
 
 @asynccontextmanager
 async def address_name_context(client: 'Client', name: str, address: int | None = None):
-  address = address or client.address
+  if address is None: address = client.address
   if address is None: raise ValueError("Missing address!")
   try:
     await client.fetch(NetworkAddresses.ID_DISCOVERY, DiscoveryConstants.FD_REGISTER_ADDRESS_NAME, RegisterAddressNameRequestBody(address_name=name, address=address).model_dump())
@@ -169,7 +169,7 @@ async def address_name_context(client: 'Client', name: str, address: int | None
     yield
   finally:
     await send_signal(client, NetworkAddresses.ID_DISCOVERY, DiscoveryConstants.SD_UNREGISTER_ADDRESS_NAME, UnregisterAddressNameMessage(address_name=name).model_dump())
-    client.set_address_name(name, address)
+    client.set_address_name(name, None)
 
 async def wait_for_topic_signal(client: 'Client', topic: int): return await TopicSignalReceiver(client, topic).wait()
 
-- 
2.43.0


From 9eb06f560eab5e95e4c1f9ed395e3c5ab4e4e840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:58 +0000
Subject: [PATCH 026/105] fix: logic operators of the calculator

---
 streamtasks/system/tasks/calculator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/streamtasks/system/tasks/calculator.py b/streamtasks/system/tasks/calculator.py
index f2157a7..0de4d8a 100644
--- a/streamtasks/system/tasks/calculator.py
+++ b/streamtasks/system/tasks/calculator.py
@@ -31,8 +31,8 @@ start: expr
     | expr "!=" expr -> ne
 
 ?binary_op: sum
-    | binary_op "&" expr -> and
-    | binary_op "|" expr -> or
+    | binary_op "&" expr -> and_
+    | binary_op "|" expr -> or_
     | binary_op "^" expr -> xor
 
 ?sum: product
@@ -51,7 +51,7 @@ start: expr
     | NAME -> variable
     | "-" atom -> neg
     | "+" atom -> pos
-    | "!" atom -> not
+    | "!" atom -> not_
     | "(" expr ")" -> group
     | NAME "(" [expr ("," expr)*]  ")" -> func
 
@@ -124,7 +124,7 @@ class CalculatorEvalTransformer(Transformer):
   def pow(self, args): return args[0] ** args[1]
   def and_(self, args): return 1.0 if args[0] > 0.5 and args[1] > 0.5 else 0.0
   def or_(self, args): return 1.0 if args[0] > 0.5 or args[1] > 0.5 else 0.0
-  def xor(self, args): return 1.0 if args[0] > 0.5 != args[1] > 0.5 else 0.0
+  def xor(self, args): return 1.0 if (args[0] > 0.5) != (args[1] > 0.5) else 0.0
   def gt(self, args): return 1.0 if args[0] > args[1] else 0.0
   def lt(self, args): return 1.0 if args[0] < args[1] else 0.0
   def ge(self, args): return 1.0 if args[0] >= args[1] else 0.0
-- 
2.43.0


From b3286a74d72c95e653061b36e4cde0ba1aff3ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:58 +0000
Subject: [PATCH 027/105] fix: a calculator survives inputs its formula has no
 result for

---
 streamtasks/system/tasks/calculator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/calculator.py b/streamtasks/system/tasks/calculator.py
index 0de4d8a..4306356 100644
--- a/streamtasks/system/tasks/calculator.py
+++ b/streamtasks/system/tasks/calculator.py
@@ -12,6 +12,7 @@ from pydantic import BaseModel, ValidationError, model_validator
 from typing import Any
 import math
 from lark import Lark, ParseTree, Transformer
+from lark.exceptions import VisitError
 import re
 
 CalculatorGrammar = Lark(r"""
@@ -233,7 +234,7 @@ class CalculatorTask(Task):
           message = NumberMessage.model_validate(data.data)
           self.var_values[var_name] = message.value
           await self.send_value(message.timestamp)
-        except ValidationError: pass
+        except (ValidationError, VisitError): pass # NOTE: no result for these inputs
 
   async def send_value(self, timestamp: int):
     result: float = CalculatorEvalTransformer(CalculatorEvalContext(self.var_values)).transform(self.formula_ast)
-- 
2.43.0


From 11195be83571c7651becade305269ab10548fde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:58 +0000
Subject: [PATCH 028/105] fix: gate state changes while a pause is being sent
 are not lost

---
 streamtasks/system/tasks/gate.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/streamtasks/system/tasks/gate.py b/streamtasks/system/tasks/gate.py
index b58289e..e416a18 100644
--- a/streamtasks/system/tasks/gate.py
+++ b/streamtasks/system/tasks/gate.py
@@ -81,8 +81,9 @@ class GateTask(Task):
           self.state.control_errored = True
   async def run_out_pauser(self):
     while True:
-      await self.out_topic.set_paused(self.state.get_output_paused(self.fail_mode))
-      await self.state.wait_change()
+      output_paused = self.state.get_output_paused(self.fail_mode)
+      if output_paused != self.out_topic.is_paused: await self.out_topic.set_paused(output_paused)
+      else: await self.state.wait_change()
   async def run_in_recv(self):
     while True:
       data = await self.in_topic.recv_data_control()
-- 
2.43.0


From 0a3cba675eb84d9dab1e81016f36e6475578ac9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:58 +0000
Subject: [PATCH 029/105] fix: switch follows the pause state of the input
 selected after a control pauses; ignores NaN

---
 streamtasks/system/tasks/switch.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/streamtasks/system/tasks/switch.py b/streamtasks/system/tasks/switch.py
index db0cfc3..f41d932 100644
--- a/streamtasks/system/tasks/switch.py
+++ b/streamtasks/system/tasks/switch.py
@@ -1,4 +1,5 @@
 import asyncio
+import math
 from contextlib import AsyncExitStack
 from typing import Any
 from typing_extensions import TypedDict
@@ -54,14 +55,19 @@ class SwitchTask(Task):
       data = await topic.recv_data_control()
       try:
         if isinstance(data, TopicControlData):
-          if data.paused: self.control_values.pop(idx, None)
+          if data.paused:
+            self.control_values.pop(idx, None)
+            await self._update_paused()
         else:
           message = NumberMessage.model_validate(data.data)
-          await self.set_value(idx, message.value)
+          if not math.isnan(message.value): await self.set_value(idx, message.value)
       except ValidationError: pass
 
   async def set_value(self, idx: int, value: float | int):
     self.control_values[idx] = value
+    await self._update_paused()
+
+  async def _update_paused(self):
     selected_index = self._get_selected_index()
     if selected_index != -1:
       await self.out_topic.set_paused(self.pairs[selected_index][0].is_paused)
-- 
2.43.0


From c07217a9891809caa4b3d7e34ce63246c6bba963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:58 +0000
Subject: [PATCH 030/105] fix: time to text survives timestamps that are not
 dates

---
 streamtasks/system/tasks/timetotext.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/timetotext.py b/streamtasks/system/tasks/timetotext.py
index 9ff222b..ab5044c 100644
--- a/streamtasks/system/tasks/timetotext.py
+++ b/streamtasks/system/tasks/timetotext.py
@@ -34,7 +34,7 @@ class TimeToTextTask(Task):
             timestamp = get_timestamp_from_message(data)
             value = datetime.fromtimestamp(timestamp / 1000).strftime(self.config.date_format)
             await self.out_topic.send(RawData(TextMessage(timestamp=timestamp, value=value).model_dump()))
-        except ValueError: pass
+        except (ValueError, OverflowError, OSError): pass
 
 class TimeToTextTaskHost(TaskHost):
   @property
-- 
2.43.0


From 1dc26a7e8f3183caf07cd1dcf7d640c0b0e050cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:53 +0000
Subject: [PATCH 031/105] fix: timestamp updater survives messages that are not
 maps

---
 streamtasks/system/tasks/timestampupdater.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/timestampupdater.py b/streamtasks/system/tasks/timestampupdater.py
index 922b566..288c5e8 100644
--- a/streamtasks/system/tasks/timestampupdater.py
+++ b/streamtasks/system/tasks/timestampupdater.py
@@ -37,7 +37,7 @@ class TimestampUpdaterTask(Task):
             data = data.shallow_copy()
             set_timestamp_on_message(data, ref_time + self.config.time_offset)
             await self.out_topic.send(data)
-          except (ValueError, KeyError):
+          except (ValueError, KeyError, TypeError):
             if not self.config.fail_closed: await self.out_topic.send(data)
 
 class TimestampUpdaterTaskHost(TaskHost):
-- 
2.43.0


From 7588446d5d2b407d986bfbb516e89129bc0e4fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:38 +0000
Subject: [PATCH 032/105] fix: raw data buffers can be cleared and remove their
 files with every dbm implementation

---
 streamtasks/rawdatabuffer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/streamtasks/rawdatabuffer.py b/streamtasks/rawdatabuffer.py
index de5fc8f..99dd8e7 100644
--- a/streamtasks/rawdatabuffer.py
+++ b/streamtasks/rawdatabuffer.py
@@ -6,16 +6,16 @@ from streamtasks.net.serialization import RawData
 class RawDataBuffer:
   def __init__(self) -> None:
     self._key_counter: int = 0
-    self._db_file = tempfile.mktemp(".db")
-    self._db = dbm.open(self._db_file, "c")
+    self._db_dir = tempfile.TemporaryDirectory() # NOTE: the names of the database files depend on the dbm implementation
+    self._db = dbm.open(os.path.join(self._db_dir.name, "buffer.db"), "c")
     self._index_map: list[str] = []
 
   def __del__(self):
     self._db.close()
-    os.remove(self._db_file)
+    self._db_dir.cleanup()
 
   def clear(self):
-    self._db.clear()
+    for key in self._index_map: del self._db[key]
     self._index_map.clear()
 
   def append(self, data: RawData):
-- 
2.43.0


From 158d4360a342c84d6ea38aada5d5bf2207705b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:39 +0000
Subject: [PATCH 033/105] fix: replay of messages that are not maps

---
 streamtasks/system/tasks/replaybuffer.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/streamtasks/system/tasks/replaybuffer.py b/streamtasks/system/tasks/replaybuffer.py
index dc43f7a..91a320d 100644
--- a/streamtasks/system/tasks/replaybuffer.py
+++ b/streamtasks/system/tasks/replaybuffer.py
@@ -63,7 +63,6 @@ class ReplayBufferTask(Task):
     while True:
       time_offset: int | None = None
       for data in self.buffer:
-        data = data.shallow_copy()
         try:
           ts = get_timestamp_from_message(data)
           if time_offset is None: time_offset = self.sync.time - ts
-- 
2.43.0


From ec384e9c5689e9d9acc39834664bd98b32884f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:39 +0000
Subject: [PATCH 034/105] fix: looped replay of a recording without length
 blocked the event loop

---
 streamtasks/system/tasks/replaybuffer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/replaybuffer.py b/streamtasks/system/tasks/replaybuffer.py
index 91a320d..4e94511 100644
--- a/streamtasks/system/tasks/replaybuffer.py
+++ b/streamtasks/system/tasks/replaybuffer.py
@@ -62,16 +62,20 @@ class ReplayBufferTask(Task):
     await self.out_topic.set_paused(False)
     while True:
       time_offset: int | None = None
+      waited = False
       for data in self.buffer:
         try:
           ts = get_timestamp_from_message(data)
           if time_offset is None: time_offset = self.sync.time - ts
           set_timestamp_on_message(data, ts + time_offset)
           wait_time = ((ts + time_offset) - self.sync.time) / 1000
-          if wait_time > 0: await asyncio.sleep(wait_time)
+          if wait_time > 0:
+            waited = True
+            await asyncio.sleep(wait_time)
         except ValueError: pass
         await self.out_topic.send(data)
       if not self.config.loop: break
+      if not waited: await asyncio.sleep(0.001) # NOTE: a recording without length must not block the event loop
     await self.out_topic.set_paused(True)
 
   async def update_playing_state(self):
-- 
2.43.0


From d2ad512695532f3a3341ba45c64828adc8f4ca31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:39 +0000
Subject: [PATCH 035/105] fix: time buffer passes on a pause that arrives while
 messages are delayed, and does not release early when stopped

---
 streamtasks/system/tasks/timebuffer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/streamtasks/system/tasks/timebuffer.py b/streamtasks/system/tasks/timebuffer.py
index 92e6206..a182f93 100644
--- a/streamtasks/system/tasks/timebuffer.py
+++ b/streamtasks/system/tasks/timebuffer.py
@@ -64,17 +64,17 @@ class TimeBufferTask(Task):
 
   async def run_sender_clock(self):
     while True:
-      if len(self.message_queue) == 0: await self.update_trigger.wait()
-      await self.out_topic.set_paused(self.paused and len(self.message_queue) == 0)
-
-      if len(self.message_queue) > 0:
+      output_paused = self.paused and len(self.message_queue) == 0
+      if output_paused != self.out_topic.is_paused: await self.out_topic.set_paused(output_paused)
+      elif len(self.message_queue) == 0: await self.update_trigger.wait()
+      else:
         next_message = self.message_queue[0]
         try:
           next_timestamp = get_timestamp_from_message(next_message)
           pending_ms = self.config.size - (get_timestamp_ms() - next_timestamp)
           if pending_ms > 0: await asyncio.sleep(pending_ms / 1000.)
         except ValueError: pass
-        finally: await self.out_topic.send(self.message_queue.popleft())
+        await self.out_topic.send(self.message_queue.popleft())
 
 class TimeBufferTaskHost(TaskHost):
   @property
-- 
2.43.0


From fa0128d644b782028603f0e1ef5f1a6bd61d64c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:42 +0000
Subject: [PATCH 036/105] fix: closing a producer that never ran

---
 streamtasks/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/streamtasks/utils.py b/streamtasks/utils.py
index c94db34..42ef0af 100644
--- a/streamtasks/utils.py
+++ b/streamtasks/utils.py
@@ -178,8 +178,8 @@ class AsyncProducer(Generic[T0]):
 
   async def close(self):
     self._on_ended()
-    self._stop()
     if self._task is not None:
+      self._stop()
       try: await self.wait_done()
       except EOFError: pass
 
@@ -222,7 +222,7 @@ class AsyncMPProducer(AsyncProducer[T0]):
   def __init__(self) -> None:
     super().__init__()
     self.stop_event = threading.Event()
-    self._loop: asyncio.BaseEventLoop
+    self._loop: asyncio.BaseEventLoop | None = None
     self._lock = asyncio.Lock()
 
   async def run(self):
@@ -232,7 +232,9 @@ class AsyncMPProducer(AsyncProducer[T0]):
   @abstractmethod
   def run_sync(self): pass
   def send_message(self, message: Any): self._loop.call_soon_threadsafe(super().send_message, message)
-  def close_consumers(self): self._loop.call_soon_threadsafe(super().close_consumers)
+  def close_consumers(self):
+    if self._loop is None: super().close_consumers()
+    else: self._loop.call_soon_threadsafe(super().close_consumers)
   async def wait_done(self):
     try: await super().wait_done()
     finally:
-- 
2.43.0


From 8fa987775734c4c46f8e4d36706ef35cd99eae4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:42 +0000
Subject: [PATCH 037/105] fix: consumers of a failed producer waited forever

---
 streamtasks/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamtasks/utils.py b/streamtasks/utils.py
index 42ef0af..220bad1 100644
--- a/streamtasks/utils.py
+++ b/streamtasks/utils.py
@@ -205,10 +205,10 @@ class AsyncProducer(Generic[T0]):
     try:
       if self._ended: raise EOFError()
       await self.run()
-    except EOFError:
+    except asyncio.CancelledError: pass
+    except BaseException:
       self._on_ended()
       raise
-    except asyncio.CancelledError: pass
 
   def _on_ended(self):
     self._ended = True
-- 
2.43.0


From 8a6df707fbb19f0e065157961762bc2672ab8c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:42 +0000
Subject: [PATCH 038/105] fix: consumer lost the last items of a producer that
 ended

---
 streamtasks/utils.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/streamtasks/utils.py b/streamtasks/utils.py
index 220bad1..46fa2e6 100644
--- a/streamtasks/utils.py
+++ b/streamtasks/utils.py
@@ -263,13 +263,18 @@ class AsyncConsumer(Generic[T1]):
     if len(self._queue) != 0: return self._queue.popleft()
     if self._closed: raise EOFError()
     _fut = self._trigger.wait()
-    async with self._producer:
-      while len(self._queue) == 0 and not self._closed:
-        await _fut
-        _fut = self._trigger.wait()
-      # TODO we need to do this in here to prevent double deques
-      if self._closed: raise EOFError()
-      return self._queue.popleft()
+    item, has_item = None, False
+    try:
+      async with self._producer:
+        while len(self._queue) == 0 and not self._closed:
+          await _fut
+          _fut = self._trigger.wait()
+        # TODO we need to do this in here to prevent double deques
+        if len(self._queue) == 0: raise EOFError()
+        item, has_item = self._queue.popleft(), True
+    except Exception:
+      if not has_item: raise # the end of the producer does not take back an item
+    return item
 
   def put(self, e: T1):
     if self.test_message(e):
-- 
2.43.0


From ce91acaf7106f160ba43083a42a6ee3eea3624c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:53 +0000
Subject: [PATCH 039/105] fix: path patterns matched paths with trailing text
 and missed matches of repeated text

---
 streamtasks/asgiserver.py | 30 ++++++------------------------
 1 file changed, 6 insertions(+), 24 deletions(-)

diff --git a/streamtasks/asgiserver.py b/streamtasks/asgiserver.py
index f562507..835360b 100644
--- a/streamtasks/asgiserver.py
+++ b/streamtasks/asgiserver.py
@@ -394,6 +394,9 @@ class PathPattern:
     for part in self.parts:
       if "}" in part: raise ValueError("Invalid pattern. Found closing brace without an opening brace.")
 
+    param_regexes = [ "(.*?)" if allow_slash else "([^/]*?)" for _, allow_slash in self.params ] + [ "" ]
+    self._regex = re.compile("".join(re.escape(part) + param for part, param in zip(self.parts, param_regexes)), re.DOTALL)
+
   def construct(self, params: dict[str, str], default_value: str | None = None) -> str:
     param_parts = []
     for param_name, param_allow_slash in self.params:
@@ -410,30 +413,9 @@ class PathPattern:
 
   def match(self, path: str) -> dict[str,str] | None:
     # path = path.rstrip("/")
-    if len(self.parts) == 1:
-      return {} if path == self.parts[0] else None
-
-    params: dict[str, str] = {}
-    current_index = 0
-    for idx in range(0, len(self.parts) - 1):
-      part1 = self.parts[idx]
-      part2 = self.parts[idx + 1]
-      param_name, param_allow_slash = self.params[idx]
-
-      part1_len = len(part1)
-      if path[current_index:current_index + part1_len] != part1: return None
-
-      current_index += part1_len
-      if part2 == "" and idx == len(self.parts) - 2:
-        param_val = path[current_index:]
-      else:
-        part2_start = path.find(part2, current_index)
-        if part2_start == -1: return None
-        param_val = path[current_index:part2_start]
-      current_index += len(param_val)
-      if "/" in param_val and not param_allow_slash: return None
-      if param_name is not None: params[param_name] = param_val
-    return params
+    match = self._regex.fullmatch(path)
+    if match is None: return None
+    return { name: value for (name, _), value in zip(self.params, match.groups()) if name is not None }
 
 class HTTPRoute:
   def __init__(self, handler: ASGIHandler, path_matcher: PathPattern, methods: Iterable[str]) -> None:
-- 
2.43.0


From 150264805b6305641f6ed79a2956af9f625048f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:53 +0000
Subject: [PATCH 040/105] fix: route for the root path matched no request

---
 streamtasks/asgiserver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/asgiserver.py b/streamtasks/asgiserver.py
index 835360b..8cdda69 100644
--- a/streamtasks/asgiserver.py
+++ b/streamtasks/asgiserver.py
@@ -365,7 +365,7 @@ class ASGIServer(ASGIHandlerStack):
 # TODO: matching needs improvements
 class PathPattern:
   def __init__(self, pattern: str) -> None:
-    pattern = pattern.rstrip("/")
+    pattern = pattern.rstrip("/") or pattern[:1]
     param_ranges: list[tuple[int, int]] = []
     param_search_start = 0
     while (param_start := pattern.find("{", param_search_start)) != -1:
-- 
2.43.0


From b173ad0f1a1d414c1f14e47782b9d989fe7935d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:53 +0000
Subject: [PATCH 041/105] fix: requests without a route in a nested router did
 not reach the handlers after it

---
 streamtasks/asgiserver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/asgiserver.py b/streamtasks/asgiserver.py
index 8cdda69..9e791ae 100644
--- a/streamtasks/asgiserver.py
+++ b/streamtasks/asgiserver.py
@@ -349,7 +349,7 @@ class ASGIHandlerStack:
   def handler(self, handler: ASGIHandler):
     self.add_handler(handler)
     return handler
-  async def __call__(self, scope: ASGIScope, receive: ASGIFnReceive, send: ASGIFnSend): await ASGINext(self._handlers)(scope, receive, send)
+  async def __call__(self, scope: ASGIScope, receive: ASGIFnReceive, send: ASGIFnSend): await ASGINext([ *self._handlers, asgi_scope_get_next_fn(scope) ])(scope, receive, send)
 
 class ASGIServer(ASGIHandlerStack):
   async def __call__(self, scope: ASGIScope, receive: ASGIFnReceive, send: ASGIFnSend) -> Any:
-- 
2.43.0


From c200ca0f43b49196facd1cbb46b13c1658df798c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:53 +0000
Subject: [PATCH 042/105] fix: requests without a handler were answered with an
 internal error

---
 streamtasks/asgi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streamtasks/asgi.py b/streamtasks/asgi.py
index 725c204..00c69fc 100644
--- a/streamtasks/asgi.py
+++ b/streamtasks/asgi.py
@@ -1,4 +1,4 @@
-from streamtasks.asgiserver import HTTPContext, http_context_handler
+from streamtasks.asgiserver import HTTPContext, NoHandlerError, http_context_handler
 from streamtasks.client.receiver import Receiver
 from streamtasks.client.fetch import FetchError, FetchErrorStatusCode, FetchRequest, FetchServer
 from streamtasks.utils import AsyncTaskManager
@@ -260,6 +260,7 @@ async def asgi_app_not_found(_scope, _receive, send):
 async def asgi_default_http_error_handler(ctx: HTTPContext):
   try:
     await ctx.next()
+  except NoHandlerError: raise # answered as not found by the server
   except (ValidationError, ValueError) as e:
     logging.debug("ASGI request error (bad request): ", e)
     await ctx.respond_status(400)
-- 
2.43.0


From 295a0cc0ae68fc8733b1e8550ef15ada52147784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:20 +0000
Subject: [PATCH 043/105] fix: index file linking out of the published
 directory was served

---
 streamtasks/asgiserver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/streamtasks/asgiserver.py b/streamtasks/asgiserver.py
index 9e791ae..a3d4d29 100644
--- a/streamtasks/asgiserver.py
+++ b/streamtasks/asgiserver.py
@@ -522,7 +522,9 @@ def static_files_handler(path: str | pathlib.Path, index_files: Iterable[str], r
   async def handler(ctx: HTTPContext):
     request_path = directory_path.joinpath(ctx.path.lstrip("/\\")).resolve()
     if directory_path not in request_path.parents and directory_path != request_path: return await ctx.respond_status(404)
-    if request_path.is_dir(): request_path = next((p for p in (request_path.joinpath(idx_file) for idx_file in index_files) if p.exists()), None)
+    if request_path.is_dir():
+      request_path = next((p for p in (request_path.joinpath(idx_file) for idx_file in index_files) if p.exists()), None)
+      if request_path is not None and directory_path not in request_path.resolve().parents: return await ctx.respond_status(404)
     if request_path is None or not request_path.exists() or request_path.is_dir(): return await ctx.respond_status(404)
     await ctx.delegate(static_file_handler(request_path, response_buffer_size=response_buffer_size))
 
-- 
2.43.0


From 83fa260cd1a7ecd0ea6a9e4924d7e392bb0189fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:20 +0000
Subject: [PATCH 044/105] fix: files of unknown type could not be served

---
 streamtasks/asgiserver.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/streamtasks/asgiserver.py b/streamtasks/asgiserver.py
index a3d4d29..599f447 100644
--- a/streamtasks/asgiserver.py
+++ b/streamtasks/asgiserver.py
@@ -266,8 +266,7 @@ class HTTPContext(TransportContext):
   async def respond_file(self, path: str | pathlib.Path, status: int = 200, mime_type: str | None = None, buffer_size: int = -1):
     buffer_size = int(buffer_size)
     st = os.stat(path)
-    mime_type = mime_type or mimetypes.guess_type(path)[0]
-    if mime_type is None: raise ValueError("Unknown mime type!")
+    mime_type = mime_type or mimetypes.guess_type(path)[0] or "application/octet-stream"
 
     content_type = mime_type
     writer = await self.respond(status, headers=[
-- 
2.43.0


From abde757e5ecf596ffab7871b8e18682fb8e6a744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:20 +0000
Subject: [PATCH 045/105] fix: requests for impossible file names were answered
 with an internal error

---
 streamtasks/asgiserver.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/streamtasks/asgiserver.py b/streamtasks/asgiserver.py
index 599f447..b7bb01c 100644
--- a/streamtasks/asgiserver.py
+++ b/streamtasks/asgiserver.py
@@ -519,7 +519,10 @@ def static_files_handler(path: str | pathlib.Path, index_files: Iterable[str], r
 
   @http_context_handler
   async def handler(ctx: HTTPContext):
-    request_path = directory_path.joinpath(ctx.path.lstrip("/\\")).resolve()
+    try:
+      request_path = directory_path.joinpath(ctx.path.lstrip("/\\")).resolve()
+      request_path.stat()
+    except (OSError, ValueError, RuntimeError): return await ctx.respond_status(404)
     if directory_path not in request_path.parents and directory_path != request_path: return await ctx.respond_status(404)
     if request_path.is_dir():
       request_path = next((p for p in (request_path.joinpath(idx_file) for idx_file in index_files) if p.exists()), None)
-- 
2.43.0


From d01819045fe1075090e6833d55d36cfb06792964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:05 +0000
Subject: [PATCH 046/105] fix: the secret manager took over the address name of
 the named topic manager

---
 streamtasks/services/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/services/constants.py b/streamtasks/services/constants.py
index 8cec79a..085fdb8 100644
--- a/streamtasks/services/constants.py
+++ b/streamtasks/services/constants.py
@@ -19,4 +19,4 @@ class NetworkAddressNames:
   TASK_MANAGER = "task_manager"
   TASK_MANAGER_WEB = "task_manager_web"
   NAMED_TOPIC_MANAGER = "named_topic_manager"
-  SECRET_MANAGER = "named_topic_manager"
+  SECRET_MANAGER = "secret_manager"
-- 
2.43.0


From ab960185f2c47915139426c929483b0d83e84ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:05 +0000
Subject: [PATCH 047/105] fix: a missing secret was reported as an internal
 error

---
 streamtasks/system/secret_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/secret_manager.py b/streamtasks/system/secret_manager.py
index b670b4c..1438d03 100644
--- a/streamtasks/system/secret_manager.py
+++ b/streamtasks/system/secret_manager.py
@@ -39,7 +39,7 @@ class SecretManager(TaskWebPathHandler):
       try:
         data = SecretRequestModel.model_validate(req.body)
         await req.respond(next(e for e in self.db.entries if e.id == data.id).model_dump())
-      except KeyError: await req.respond_error(new_fetch_body_not_found("secret not found!"))
+      except StopIteration: await req.respond_error(new_fetch_body_not_found("secret not found!"))
 
     @server.route("put_secret")
     async def _(req: FetchRequest):
-- 
2.43.0


From 94f7948ab377fab68d28f41645f50050f9f1773b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:05 +0000
Subject: [PATCH 048/105] fix: ids of secrets could not be sent over
 connections

---
 streamtasks/system/secret_manager.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/streamtasks/system/secret_manager.py b/streamtasks/system/secret_manager.py
index 1438d03..85743ce 100644
--- a/streamtasks/system/secret_manager.py
+++ b/streamtasks/system/secret_manager.py
@@ -1,7 +1,7 @@
 import asyncio
 import os
 from uuid import UUID
-from pydantic import UUID4, BaseModel, TypeAdapter
+from pydantic import UUID4, TypeAdapter
 from streamtasks.asgi import ASGIAppRunner, asgi_default_http_error_handler
 from streamtasks.asgiserver import ASGIRouter, ASGIServer, HTTPContext, http_context_handler
 from streamtasks.client import Client
@@ -11,14 +11,13 @@ from streamtasks.env import get_data_sub_dir
 from streamtasks.net import EndpointOrAddress
 from streamtasks.pydanticdb import PydanticDB
 from streamtasks.services.constants import NetworkAddressNames
+from streamtasks.system.task import ModelWithId
 from streamtasks.system.task_web import TaskWebPathHandler
 
-class SecretModel(BaseModel):
-  id: UUID4
+class SecretModel(ModelWithId):
   value: str
 
-class SecretRequestModel(BaseModel):
-  id: UUID4
+class SecretRequestModel(ModelWithId): pass
 
 SecretModelListModel = TypeAdapter(list[SecretModel])
 
-- 
2.43.0


From 6451503162e557a5061c287369b07c58916bf1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:05 +0000
Subject: [PATCH 049/105] fix: named topics created by resolving them were not
 stored

---
 streamtasks/system/named_topic_manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/named_topic_manager.py b/streamtasks/system/named_topic_manager.py
index b3814b1..200efaf 100644
--- a/streamtasks/system/named_topic_manager.py
+++ b/streamtasks/system/named_topic_manager.py
@@ -65,7 +65,9 @@ class NamedTopicManager(TaskWebPathHandler):
     @server.route("resolve_named_topic")
     async def _(req: FetchRequest):
       data = NamedTopicRequestModel.model_validate(req.body)
-      if next((1 for e in self.db.entries if e.name == data.name), None) is None: self.db.update(self.db.entries + [ NamedTopicModel(name=data.name, metadata={}) ])
+      if next((1 for e in self.db.entries if e.name == data.name), None) is None:
+        self.db.update(self.db.entries + [ NamedTopicModel(name=data.name, metadata={}) ])
+        self.db.save()
       if data.name not in self.topic_map: self.topic_map[data.name] = (await self.client.request_topic_ids(1))[0]
       await req.respond(NamedTopicResolvedResponseModel(topic=self.topic_map[data.name]).model_dump())
 
-- 
2.43.0


From 4c0288a0cdfb3941242f315ff6f0d19332c2f804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:05 +0000
Subject: [PATCH 050/105] fix: a crash while saving left a torn file

---
 streamtasks/pydanticdb.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/streamtasks/pydanticdb.py b/streamtasks/pydanticdb.py
index c181107..e3da269 100644
--- a/streamtasks/pydanticdb.py
+++ b/streamtasks/pydanticdb.py
@@ -16,7 +16,13 @@ class PydanticDB(Generic[T]):
   def entries(self): return copy.deepcopy(self._entries)
 
   def save(self):
-    with open(self._filename, "wb") as fd: fd.write(self._list_model.dump_json(self._entries))
+    data = self._list_model.dump_json(self._entries)
+    temp_filename = self._filename + ".tmp"
+    with open(temp_filename, "wb") as fd:
+      fd.write(data)
+      fd.flush()
+      os.fsync(fd.fileno())
+    os.replace(temp_filename, self._filename)
 
   def load(self):
     with open(self._filename, "rb") as fd: self._entries = self._list_model.validate_json(fd.read())
-- 
2.43.0


From 978122bcd05a46d7f3150206056777ed699387bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:20 +0000
Subject: [PATCH 051/105] fix: names of topics in web paths were decoded twice,
 names with slashes not found

---
 streamtasks/system/named_topic_manager.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/streamtasks/system/named_topic_manager.py b/streamtasks/system/named_topic_manager.py
index 200efaf..90992d0 100644
--- a/streamtasks/system/named_topic_manager.py
+++ b/streamtasks/system/named_topic_manager.py
@@ -1,6 +1,5 @@
 import asyncio
 import os
-from urllib.parse import unquote
 from pydantic import BaseModel, TypeAdapter
 from streamtasks.asgi import ASGIAppRunner, asgi_default_http_error_handler
 from streamtasks.asgiserver import ASGIRouter, ASGIServer, HTTPContext, http_context_handler
@@ -97,18 +96,18 @@ class NamedTopicManager(TaskWebPathHandler):
       self.db.save()
       await ctx.respond_json(data.model_dump())
 
-    @router.get("/api/named-topic/{name}")
+    @router.get("/api/named-topic/{name*}")
     @http_context_handler
     async def _(ctx: HTTPContext):
       try:
-        name = unquote(ctx.params["name"])
+        name = ctx.params["name"]
         await ctx.respond_json(next(e for e in self.db.entries if e.name == name).model_dump())
       except StopIteration: await ctx.respond_status(404)
 
-    @router.delete("/api/named-topic/{name}")
+    @router.delete("/api/named-topic/{name*}")
     @http_context_handler
     async def _(ctx: HTTPContext):
-      name = unquote(ctx.params["name"])
+      name = ctx.params["name"]
       self.db.update(e for e in self.db.entries if e.name != name)
       self.db.save()
       await ctx.respond_status(200)
-- 
2.43.0


From 53c7426bc01792a8df44d2f70096abe1a25afb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:29 +0000
Subject: [PATCH 052/105] fix: servers kept running after the connection
 manager stopped

---
 streamtasks/system/connection_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/connection_manager.py b/streamtasks/system/connection_manager.py
index 2a309ba..77b5cd3 100644
--- a/streamtasks/system/connection_manager.py
+++ b/streamtasks/system/connection_manager.py
@@ -125,7 +125,7 @@ class ConnectionManager(TaskWebPathHandler):
       for url_data in itertools.chain(self._connection_url_data, self._server_url_data): url_data.start()
       await self.run_web_server()
     finally:
-      for data in itertools.chain(self._connection_url_data, self._connection_url_data): await data.stop()
+      for data in itertools.chain(self._connection_url_data, self._server_url_data): await data.stop()
 
   async def run_web_server(self):
     app = ASGIServer()
-- 
2.43.0


From a7b620cfa764bfc3a7418baf60e855321c061907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:29 +0000
Subject: [PATCH 053/105] fix: servers that failed could not be deleted and
 kept the others from being stopped

---
 streamtasks/system/connection_manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/streamtasks/system/connection_manager.py b/streamtasks/system/connection_manager.py
index 77b5cd3..16c07cc 100644
--- a/streamtasks/system/connection_manager.py
+++ b/streamtasks/system/connection_manager.py
@@ -4,6 +4,7 @@ import functools
 import hashlib
 import itertools
 import json
+import logging
 import os
 import re
 from typing import Generic, TypeVar
@@ -66,6 +67,7 @@ class UrlData(Generic[T]):
     self.task.cancel()
     try: await self.task
     except asyncio.CancelledError: pass
+    except Exception as e: logging.info(f"stopped after failing: {e}")
     finally: self.task = None
 
   @abstractmethod
-- 
2.43.0


From 35abb5d509a0b19bc903f547564d8390af154a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:29 +0000
Subject: [PATCH 054/105] fix: rejected duplicates of connections left a link
 behind

---
 streamtasks/system/connection_manager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamtasks/system/connection_manager.py b/streamtasks/system/connection_manager.py
index 16c07cc..6946835 100644
--- a/streamtasks/system/connection_manager.py
+++ b/streamtasks/system/connection_manager.py
@@ -160,8 +160,8 @@ class ConnectionManager(TaskWebPathHandler):
     @http_context_handler
     async def _(ctx: HTTPContext):
       req = UrlCreateModel.model_validate_json(await ctx.receive_json_raw())
+      if any(True for connection in self._connection_url_data if connection.url == req.url): return await ctx.respond_status(400)
       data = await self.create_connection_url_data(req.url)
-      if any(True for connection in self._connection_url_data if connection.id == data.id): return await ctx.respond_status(400)
       data.start()
       self._connection_url_data.append(data)
       self.update_connection_urls()
@@ -186,8 +186,8 @@ class ConnectionManager(TaskWebPathHandler):
     @http_context_handler
     async def _(ctx: HTTPContext):
       req = UrlCreateModel.model_validate_json(await ctx.receive_json_raw())
+      if any(True for server in self._server_url_data if server.url == req.url): return await ctx.respond_status(400)
       data = await self.create_server_url_data(req.url)
-      if any(True for server in self._server_url_data if server.id == data.id): return await ctx.respond_status(400)
       data.start()
       self._server_url_data.append(data)
       self.update_server_urls()
-- 
2.43.0


From 9cb3ef8e9f7dbe98888413e0e04d8567f2b2d09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:29 +0000
Subject: [PATCH 055/105] fix: a connection with an invalid url was rejected
 but stored, and broke the list

---
 streamtasks/system/connection_manager.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/streamtasks/system/connection_manager.py b/streamtasks/system/connection_manager.py
index 6946835..ae1b820 100644
--- a/streamtasks/system/connection_manager.py
+++ b/streamtasks/system/connection_manager.py
@@ -218,10 +218,14 @@ class ConnectionManager(TaskWebPathHandler):
 
   async def create_connection_url_data(self, url: str):
     w = AutoReconnector(connect_fn=functools.partial(connect, url=url))
+    data = ConnectionUrlData(url=url, worker=w, change_trigger=self._change_trigger_connections)
+    data.to_json_data() # rejects urls that could not be listed
     await self.switch.add_link(await w.create_link())
-    return ConnectionUrlData(url=url, worker=w, change_trigger=self._change_trigger_connections)
+    return data
 
   async def create_server_url_data(self, url: str):
     w = create_server(url)
+    data = ServerUrlData(url=url, worker=w, change_trigger=self._change_trigger_servers)
+    data.to_json_data() # rejects urls that could not be listed
     await self.switch.add_link(await w.create_link())
-    return ServerUrlData(url=url, worker=w, change_trigger=self._change_trigger_servers)
+    return data
-- 
2.43.0


From 2737e44fd8006abb1fd1a98ef97f7f264f70f87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:29 +0000
Subject: [PATCH 056/105] fix: connection settings were lost when the process
 was ended

---
 streamtasks/system/connection_manager.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/streamtasks/system/connection_manager.py b/streamtasks/system/connection_manager.py
index ae1b820..59aa345 100644
--- a/streamtasks/system/connection_manager.py
+++ b/streamtasks/system/connection_manager.py
@@ -98,27 +98,31 @@ class UrlCreateModel(BaseModel):
 class ConnectionManager(TaskWebPathHandler):
   def __init__(self, register_endpoits: list[EndpointOrAddress] = [NetworkAddressNames.TASK_MANAGER_WEB]):
     super().__init__(f"/connections/{get_url_node_name()}/", PathRegistrationFrontend(path="std:connectionmanager", label=f"Connections ({NODE_NAME()})"), register_endpoits)
-    self.db = dbm.open(os.path.join(get_data_sub_dir("user-data"), "connections.db"), flag="c")
+    self._db_filename = os.path.join(get_data_sub_dir("user-data"), "connections.db")
     self._connection_url_data: list[ConnectionUrlData] = []
     self._server_url_data: list[ServerUrlData] = []
     self._change_trigger_servers = AsyncTrigger()
     self._change_trigger_connections = AsyncTrigger()
 
-  def __del__(self): self.db.close()
+  def _load(self, key: str, default: bytes) -> bytes:
+    with dbm.open(self._db_filename, flag="c") as db: return db.get(key, default)
+
+  def _save(self, key: str, value: bytes): # closed right away, as some databases only write when they are closed
+    with dbm.open(self._db_filename, flag="c") as db: db[key] = value
 
   def get_connection_urls(self) -> list[str]:
-    try: return URLListAdapter.validate_json(self.db.get("connection", b"[]"))
+    try: return URLListAdapter.validate_json(self._load("connection", b"[]"))
     except ValidationError: return []
 
   def update_connection_urls(self):
-    self.db["connection"] = json.dumps([ data.url for data in self._connection_url_data ]).encode("utf-8")
+    self._save("connection", json.dumps([ data.url for data in self._connection_url_data ]).encode("utf-8"))
 
   def get_server_urls(self) -> list[str]:
-    try: return URLListAdapter.validate_json(self.db.get("server", b"[]"))
+    try: return URLListAdapter.validate_json(self._load("server", b"[]"))
     except ValidationError: return []
 
   def update_server_urls(self):
-    self.db["server"] = json.dumps([ data.url for data in self._server_url_data ]).encode("utf-8")
+    self._save("server", json.dumps([ data.url for data in self._server_url_data ]).encode("utf-8"))
 
   async def run_inner(self):
     try:
-- 
2.43.0


From 0dba860501890fa14f37a92bf5a8310ddec33909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:10 +0000
Subject: [PATCH 057/105] fix: a stored connection with an invalid url kept the
 others from being restored

---
 streamtasks/system/connection_manager.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/streamtasks/system/connection_manager.py b/streamtasks/system/connection_manager.py
index 59aa345..c83fbb6 100644
--- a/streamtasks/system/connection_manager.py
+++ b/streamtasks/system/connection_manager.py
@@ -126,8 +126,12 @@ class ConnectionManager(TaskWebPathHandler):
 
   async def run_inner(self):
     try:
-      for url in self.get_connection_urls(): self._connection_url_data.append(await self.create_connection_url_data(url))
-      for url in self.get_server_urls(): self._server_url_data.append(await self.create_server_url_data(url))
+      for url in self.get_connection_urls():
+        try: self._connection_url_data.append(await self.create_connection_url_data(url))
+        except ValueError as e: logging.warning(f"skipped invalid connection: {e}")
+      for url in self.get_server_urls():
+        try: self._server_url_data.append(await self.create_server_url_data(url))
+        except ValueError as e: logging.warning(f"skipped invalid server: {e}")
       for url_data in itertools.chain(self._connection_url_data, self._server_url_data): url_data.start()
       await self.run_web_server()
     finally:
-- 
2.43.0


From 5cf660ca03ca70ef43b41cbc03995d8feccd0296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:31 +0000
Subject: [PATCH 058/105] fix: the shutdown of a task host failed and left its
 tasks running and registered

---
 streamtasks/system/task.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index a2e884c..304ca7f 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -213,9 +213,11 @@ class TaskHost(Worker):
         logging.debug("Failed to register task host!", e, traceback.format_exc())
       raise e
     finally:
-      shutdown_tasks: list[asyncio.Task] = list(self.tasks) + [ asyncio.create_task(self.unregister(ep)) for ep in self._registered_at_endpoints ]
-      for task in self.tasks.values(): task.cancel()
-      if len(shutdown_tasks) > 0: await asyncio.wait(shutdown_tasks, timeout=1) # NOTE: make configurable
+      running_tasks = list(self.tasks.values())
+      for task in running_tasks: task.cancel()
+      if len(running_tasks) > 0: await asyncio.wait(running_tasks, timeout=1) # NOTE: make configurable
+      unregister_tasks = [ asyncio.create_task(self.unregister(ep)) for ep in self._registered_at_endpoints ]
+      if len(unregister_tasks) > 0: await asyncio.wait(unregister_tasks, timeout=1)
       await self.shutdown()
       self.ready.clear()
 
-- 
2.43.0


From f28c96961e1aedd81ac1ac54d4ca22f67ea89147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:31 +0000
Subject: [PATCH 059/105] fix: a task cancelled while it reported its end
 stayed in the task host

---
 streamtasks/system/task.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index 304ca7f..5afc414 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -237,8 +237,8 @@ class TaskHost(Worker):
       status = TaskStatus.failed
       error_text = str(e)
 
-    await send_signal(self.client, report_address, TaskConstants.SD_TM_TASK_REPORT, TaskReport(id=id, status=status, error=error_text).model_dump())
-    self.tasks.pop(id, None)
+    try: await send_signal(self.client, report_address, TaskConstants.SD_TM_TASK_REPORT, TaskReport(id=id, status=status, error=error_text).model_dump())
+    finally: self.tasks.pop(id, None)
 
   async def run_api(self):
     fetch_server = FetchServer(self.client)
-- 
2.43.0


From 6e73f0b1ca392dcc3ed48796be88a86aeeaaa8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:31 +0000
Subject: [PATCH 060/105] fix: a task with invalid metadata ran although its
 start was reported as failed

---
 streamtasks/system/task.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index 5afc414..b8519e3 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -249,8 +249,9 @@ class TaskHost(Worker):
       try:
         task = await self.create_task(body.config, body.topic_space_id)
         metadata = await asyncio.wait_for(task.setup(), 1) # NOTE: make this configurable
+        response = TaskStartResponse(id=body.id, metadata=metadata, error=None) # validated before the task runs
         self.tasks[body.id] = asyncio.create_task(self.run_task(body.id, task, body.report_address))
-        await req.respond(TaskStartResponse(id=body.id, metadata=metadata, error=None))
+        await req.respond(response)
       except BaseException as e:
         await req.respond(TaskStartResponse(id=body.id, error=str(e), metadata={}))
 
-- 
2.43.0


From e840082defa9974b2271caffc6a24b032c6ad600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:31 +0000
Subject: [PATCH 061/105] fix: a task host did not stop while it was starting a
 task

---
 streamtasks/system/task.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index b8519e3..501810b 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -254,6 +254,7 @@ class TaskHost(Worker):
         await req.respond(response)
       except BaseException as e:
         await req.respond(TaskStartResponse(id=body.id, error=str(e), metadata={}))
+        if isinstance(e, asyncio.CancelledError): raise
 
     @fetch_server.route(TaskConstants.FD_TASK_CANCEL)
     async def _(req: FetchRequest):
-- 
2.43.0


From 9019f1e28e988d6053c1588c4ddbe8c7a0ae9a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:31 +0000
Subject: [PATCH 062/105] fix: unregistered task hosts were not announced to
 receivers

---
 streamtasks/system/task.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index 501810b..dac6e28 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -417,9 +417,9 @@ class TaskHostRegisteredReceiver(BroadcastReceiver[TaskHostRegistration]):
   def transform_data(self, _: str, data: RawData) -> TaskInstance:
     return TaskHostRegistration.model_validate(data.data)
 
-class TaskHostUnregisteredReceiver(BroadcastReceiver[ModelWithId]):
-  def transform_data(self, _: str, data: RawData) -> ModelWithId:
-    return ModelWithId.model_validate(data.data)
+class TaskHostUnregisteredReceiver(BroadcastReceiver[ModelWithStrId]):
+  def transform_data(self, _: str, data: RawData) -> ModelWithStrId:
+    return ModelWithStrId.model_validate(data.data)
 
 class TaskManagerClient:
   def __init__(self, client: Client, address_name: str = NetworkAddressNames.TASK_MANAGER) -> None:
-- 
2.43.0


From 2971b358125acb08745183fe171680f1e7b6637c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:31 +0000
Subject: [PATCH 063/105] fix: tasks of an unregistered host were dropped
 without anyone being told

---
 streamtasks/system/task.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index dac6e28..ee69eaa 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -292,6 +292,13 @@ class TaskManager(Worker):
     finally:
       await self.shutdown()
 
+  async def broadcast_task(self, task: TaskInstance): await self.bc_server.broadcast(get_namespace_by_task_id(task.id), RawData(task.model_dump()))
+  async def end_task(self, task: TaskInstance, status: TaskStatus, error: str | None = None):
+    task.status = status
+    task.error = error
+    self.tasks.pop(task.id, None)
+    await self.broadcast_task(task)
+
   async def run_signal_api(self):
     server = SignalServer(self.client)
 
@@ -304,13 +311,15 @@ class TaskManager(Worker):
       if task.status is not TaskStatus.running:
         self.tasks.pop(task.id, None)
         gc.collect()
-      await self.bc_server.broadcast(get_namespace_by_task_id(task.id), RawData(task.model_dump()))
+      await self.broadcast_task(task)
 
     @server.route(TaskConstants.SD_UNREGISTER_TASK_HOST)
     async def _(message_data: Any):
       data = ModelWithStrId.model_validate(message_data)
       self.task_hosts.pop(data.id, None)
-      self.tasks = { tid: task for tid, task in self.tasks.items() if task.host_id != data.id }
+      for task in [ task for task in self.tasks.values() if task.host_id == data.id ]:
+        if task.status is TaskStatus.scheduled: await self.end_task(task, TaskStatus.failed, "The task host was unregistered!")
+        else: await self.end_task(task, TaskStatus.stopped)
       await self.bc_server.broadcast(TaskConstants.BC_TASK_HOST_UNREGISTERED, RawData(data.model_dump()))
 
     await server.run()
-- 
2.43.0


From 15adf601891ee7308ee404b8ff3507e7ee12c6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:31 +0000
Subject: [PATCH 064/105] fix: a task that ended right after its start was
 reported as running

---
 streamtasks/system/task.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index ee69eaa..7262835 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -394,10 +394,9 @@ class TaskManager(Worker):
         task_start_result: TaskStartResponse = TaskStartResponse.model_validate(task_start_result)
 
         task_instance.metadata=task_start_result.metadata
-        task_instance.error=task_start_result.error
-        task_instance.status=TaskStatus.running if task_start_result.error is None else TaskStatus.failed
-
-        if task_instance.status == TaskStatus.failed: self.tasks.pop(task_instance.id)
+        if task_instance.status is TaskStatus.scheduled: # otherwise the end of the task was already reported
+          if task_start_result.error is None: task_instance.status = TaskStatus.running
+          else: await self.end_task(task_instance, TaskStatus.failed, task_start_result.error)
 
         await req.respond(task_instance.model_dump())
       except KeyError as e: await req.respond_error(new_fetch_body_not_found(str(e)))
-- 
2.43.0


From 1879caba05ddf0df9fbcf51556141ad201407790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:31 +0000
Subject: [PATCH 065/105] fix: a running task could be started again

---
 streamtasks/system/task.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index 7262835..7f21951 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -381,6 +381,7 @@ class TaskManager(Worker):
       try:
         body = TMTaskStartRequest.model_validate(req.body)
         task_instance = self.tasks[body.id]
+        if task_instance.status is not TaskStatus.scheduled: return await req.respond_error(new_fetch_body_bad_request("The task was already started!"))
         task_host = self.task_hosts[task_instance.host_id]
 
         task_start_request = TaskStartRequest(
-- 
2.43.0


From 8eab6beb3006147074117219a0132606e7ab764f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:31 +0000
Subject: [PATCH 066/105] fix: a task without a task host stayed scheduled
 after its start failed

---
 streamtasks/system/task.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index 7f21951..14bd145 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -382,7 +382,9 @@ class TaskManager(Worker):
         body = TMTaskStartRequest.model_validate(req.body)
         task_instance = self.tasks[body.id]
         if task_instance.status is not TaskStatus.scheduled: return await req.respond_error(new_fetch_body_bad_request("The task was already started!"))
-        task_host = self.task_hosts[task_instance.host_id]
+        if (task_host := self.task_hosts.get(task_instance.host_id, None)) is None:
+          await self.end_task(task_instance, TaskStatus.failed, "Task host not found!")
+          return await req.respond(task_instance.model_dump())
 
         task_start_request = TaskStartRequest(
           id=task_instance.id,
-- 
2.43.0


From 3e48402beeb600cbbf3b01d6b7577310046aa5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:31 +0000
Subject: [PATCH 067/105] fix: tasks that were scheduled but not started could
 not be cancelled

---
 streamtasks/system/task.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index 14bd145..cfbbcf8 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -410,6 +410,9 @@ class TaskManager(Worker):
       try:
         body = TMTaskRequestBase.model_validate(req.body)
         task_inst = self.tasks[body.id]
+        if task_inst.status is TaskStatus.scheduled: # not known to the task host
+          await self.end_task(task_inst, TaskStatus.stopped)
+          return await req.respond("OK")
         task_host = self.task_hosts[task_inst.host_id]
         tc_req = TaskCancelRequest(id=task_inst.id)
         task_cancel_result = await self.client.fetch(task_host.address, TaskConstants.FD_TASK_CANCEL, tc_req.model_dump())
-- 
2.43.0


From 812f12600cca17188ca7354098dea7540d5f2df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:31 +0000
Subject: [PATCH 068/105] fix: cancelling a task that just ended was an
 internal error

---
 streamtasks/system/task.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index cfbbcf8..76d704f 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -415,7 +415,10 @@ class TaskManager(Worker):
           return await req.respond("OK")
         task_host = self.task_hosts[task_inst.host_id]
         tc_req = TaskCancelRequest(id=task_inst.id)
-        task_cancel_result = await self.client.fetch(task_host.address, TaskConstants.FD_TASK_CANCEL, tc_req.model_dump())
+        try: task_cancel_result = await self.client.fetch(task_host.address, TaskConstants.FD_TASK_CANCEL, tc_req.model_dump())
+        except FetchError as e:
+          if e.status_code != FetchErrorStatusCode.BAD_REQUEST: raise
+          return await req.respond_error(new_fetch_body_not_found("The task is over!"))
         if task_cancel_result != "OK": raise Exception("Failed to cancel task!")
         await req.respond("OK")
       except KeyError as e: await req.respond_error(new_fetch_body_not_found(str(e)))
-- 
2.43.0


From d78897e4976f261864818938903bae2369cee511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:43 +0000
Subject: [PATCH 069/105] fix: the task manager waited forever for a task host
 that was shut down

---
 streamtasks/system/task.py | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index 76d704f..898d4d9 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -148,6 +148,7 @@ class MetadataFields:
   ASGISERVER = "asgiserver"
 
 class TaskNotFoundError(BaseException): pass
+class TaskHostRemovedError(Exception): pass
 
 def get_namespace_by_task_id(task_id: UUID4): return f"/task/{task_id}"
 def task_host_id_from_name(name: str): return get_node_name_id("TaskHost" + name)
@@ -272,6 +273,7 @@ class TaskManager(Worker):
   def __init__(self, address_name: str = NetworkAddressNames.TASK_MANAGER):
     super().__init__()
     self.task_hosts: dict[str, TaskHostRegistration] = {}
+    self.task_host_removed_events: dict[str, asyncio.Event] = {}
     self.tasks: dict[UUID4, TaskInstance] = {}
     self.address_name = address_name
     self.client: Client
@@ -299,6 +301,25 @@ class TaskManager(Worker):
     self.tasks.pop(task.id, None)
     await self.broadcast_task(task)
 
+  async def remove_task_host(self, id: str):
+    self.task_hosts.pop(id, None)
+    if (removed_event := self.task_host_removed_events.pop(id, None)) is not None: removed_event.set()
+    for task in [ task for task in self.tasks.values() if task.host_id == id ]:
+      if task.status is TaskStatus.scheduled: await self.end_task(task, TaskStatus.failed, "The task host was unregistered!")
+      else: await self.end_task(task, TaskStatus.stopped)
+
+  async def fetch_task_host(self, task_host: TaskHostRegistration, descriptor: str, body: Any):
+    removed_event = self.task_host_removed_events.setdefault(task_host.id, asyncio.Event())
+    fetch_task = asyncio.create_task(self.client.fetch(task_host.address, descriptor, body))
+    removed_task = asyncio.create_task(removed_event.wait())
+    try:
+      await asyncio.wait([fetch_task, removed_task], return_when="FIRST_COMPLETED")
+      if not fetch_task.done(): raise TaskHostRemovedError() # it will not answer any more
+      return fetch_task.result()
+    finally:
+      fetch_task.cancel()
+      removed_task.cancel()
+
   async def run_signal_api(self):
     server = SignalServer(self.client)
 
@@ -316,10 +337,7 @@ class TaskManager(Worker):
     @server.route(TaskConstants.SD_UNREGISTER_TASK_HOST)
     async def _(message_data: Any):
       data = ModelWithStrId.model_validate(message_data)
-      self.task_hosts.pop(data.id, None)
-      for task in [ task for task in self.tasks.values() if task.host_id == data.id ]:
-        if task.status is TaskStatus.scheduled: await self.end_task(task, TaskStatus.failed, "The task host was unregistered!")
-        else: await self.end_task(task, TaskStatus.stopped)
+      await self.remove_task_host(data.id)
       await self.bc_server.broadcast(TaskConstants.BC_TASK_HOST_UNREGISTERED, RawData(data.model_dump()))
 
     await server.run()
@@ -393,7 +411,8 @@ class TaskManager(Worker):
           config=body.config
         )
 
-        task_start_result = await self.client.fetch(task_host.address, TaskConstants.FD_TASK_START, task_start_request.model_dump())
+        try: task_start_result = await self.fetch_task_host(task_host, TaskConstants.FD_TASK_START, task_start_request.model_dump())
+        except TaskHostRemovedError: return await req.respond(task_instance.model_dump()) # ended with its host
         task_start_result: TaskStartResponse = TaskStartResponse.model_validate(task_start_result)
 
         task_instance.metadata=task_start_result.metadata
@@ -415,7 +434,8 @@ class TaskManager(Worker):
           return await req.respond("OK")
         task_host = self.task_hosts[task_inst.host_id]
         tc_req = TaskCancelRequest(id=task_inst.id)
-        try: task_cancel_result = await self.client.fetch(task_host.address, TaskConstants.FD_TASK_CANCEL, tc_req.model_dump())
+        try: task_cancel_result = await self.fetch_task_host(task_host, TaskConstants.FD_TASK_CANCEL, tc_req.model_dump())
+        except TaskHostRemovedError: return await req.respond("OK") # ended with its host
         except FetchError as e:
           if e.status_code != FetchErrorStatusCode.BAD_REQUEST: raise
           return await req.respond_error(new_fetch_body_not_found("The task is over!"))
-- 
2.43.0


From 8802acc923c23e92dcd24b5b7b31a2c591b8e16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:43 +0000
Subject: [PATCH 070/105] fix: tasks of a task host that was restarted were
 listed as running

---
 streamtasks/system/task.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index 898d4d9..7d33b9d 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -349,6 +349,7 @@ class TaskManager(Worker):
     async def _(req: FetchRequest):
       try:
         reg = TaskHostRegistration.model_validate(req.body)
+        if (previous_reg := self.task_hosts.get(reg.id, None)) is not None and previous_reg.address != reg.address: await self.remove_task_host(reg.id) # restarted
         self.task_hosts[reg.id] = reg
         await self.bc_server.broadcast(TaskConstants.BC_TASK_HOST_REGISTERED, RawData(reg.model_dump()))
         await req.respond(None)
-- 
2.43.0


From e3ea6624466b43bbd439f23e59b5146fbe43a254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:43 +0000
Subject: [PATCH 071/105] fix: a task could be moved out of a running
 deployment, and was stored twice then

---
 streamtasks/system/task_web.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index 6c7c817..d44f723 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -180,11 +180,9 @@ class TaskWebBackendStore:
     except StopIteration: raise ValueError("Invalid id!")
   async def create_or_update_task(self, task: StoredTask) -> StoredTask:
     if task.deployment_id in self.running_deployments: raise ValueError("Deployment is running!")
-    try:
-      existing_task = await self.get_task(task.id)
-      if existing_task.deployment_id in self.running_deployments: raise ValueError("Deployment is running!")
-      self.tasks.update([t for t in self.tasks.entries if t.id != task.id] + [task])
-    except: self.tasks.update(self.tasks.entries + [task])
+    existing_task = next((t for t in self.tasks.entries if t.id == task.id), None)
+    if existing_task is not None and existing_task.deployment_id in self.running_deployments: raise ValueError("Deployment is running!")
+    self.tasks.update([t for t in self.tasks.entries if t.id != task.id] + [task])
     self.tasks.save()
   async def delete_task(self, id: UUID4):
     task = await self.get_task(id)
-- 
2.43.0


From 18633c8d5320a5fa5c4e829d87b046cf75e389ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:43 +0000
Subject: [PATCH 072/105] fix: deployments could be scheduled, started and
 edited while they were being started or stopped

---
 streamtasks/system/task_web.py | 78 +++++++++++++++++++++-------------
 1 file changed, 48 insertions(+), 30 deletions(-)

diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index d44f723..42eeb8d 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -1,5 +1,6 @@
 from abc import abstractmethod
 import asyncio
+from contextlib import contextmanager
 import itertools
 import json
 import logging
@@ -133,6 +134,7 @@ class TaskWebPathHandler(Worker):
 class TaskWebBackendStore:
   def __init__(self) -> None:
     self.running_deployments: dict[UUID4, RunningDeployment] = {}
+    self.changing_deployments: set[UUID4] = set()
 
     data_dir = get_data_sub_dir("user-data")
     self.deployments = PydanticDB(DeploymentBase, os.path.join(data_dir, "deployments.json"))
@@ -142,6 +144,14 @@ class TaskWebBackendStore:
   def set_running_deployment(self, deployment: RunningDeployment): self.running_deployments[deployment.id] = deployment
   def get_running_deployment(self, deployment_id: UUID4): return self.running_deployments[deployment_id]
   def delete_running_deployment(self, deployment_id: UUID4): return self.running_deployments.pop(deployment_id)
+  def is_locked(self, deployment_id: UUID4): return deployment_id in self.running_deployments or deployment_id in self.changing_deployments
+
+  @contextmanager
+  def change_deployment(self, deployment_id: UUID4):
+    if deployment_id in self.changing_deployments: raise ValueError("Deployment is being scheduled, started or stopped!")
+    self.changing_deployments.add(deployment_id)
+    try: yield
+    finally: self.changing_deployments.discard(deployment_id)
 
   async def all_dashboards(self) -> list[DeploymentDashboard]: return self.dashboards.entries
   async def all_dashboards_in_deployment(self, deployment_id: UUID4) -> list[DeploymentDashboard]: return [ db for db in self.dashboards.entries if db.deployment_id == deployment_id ]
@@ -164,12 +174,12 @@ class TaskWebBackendStore:
     self.deployments.update(self.deployments.entries + [deployment])
     self.deployments.save()
   async def update_deployment(self, deployment: DeploymentBase):
-    if deployment.id in self.running_deployments: raise ValueError("Deployment is running!")
+    if self.is_locked(deployment.id): raise ValueError("Deployment is running!")
     if next((True for d in self.deployments.entries if d.id == deployment.id), None) is None: raise ValueError("Deployment does not exists!")
     self.deployments.update([d for d in self.deployments.entries if d.id != deployment.id] + [deployment])
     self.deployments.save()
   async def delete_deployment(self, id: UUID4):
-    if id in self.running_deployments: raise ValueError("Deployment is running!")
+    if self.is_locked(id): raise ValueError("Deployment is running!")
     self.deployments.update([d for d in self.deployments.entries if d.id != id])
     self.deployments.save()
 
@@ -179,14 +189,14 @@ class TaskWebBackendStore:
     try: return self.task_apply_instance(FullTask.model_validate(next(t for t in self.tasks.entries if t.id == id).model_dump()))
     except StopIteration: raise ValueError("Invalid id!")
   async def create_or_update_task(self, task: StoredTask) -> StoredTask:
-    if task.deployment_id in self.running_deployments: raise ValueError("Deployment is running!")
+    if self.is_locked(task.deployment_id): raise ValueError("Deployment is running!")
     existing_task = next((t for t in self.tasks.entries if t.id == task.id), None)
-    if existing_task is not None and existing_task.deployment_id in self.running_deployments: raise ValueError("Deployment is running!")
+    if existing_task is not None and self.is_locked(existing_task.deployment_id): raise ValueError("Deployment is running!")
     self.tasks.update([t for t in self.tasks.entries if t.id != task.id] + [task])
     self.tasks.save()
   async def delete_task(self, id: UUID4):
     task = await self.get_task(id)
-    if task.deployment_id in self.running_deployments: raise ValueError("Deployment is running!")
+    if self.is_locked(task.deployment_id): raise ValueError("Deployment is running!")
     self.tasks.update([t for t in self.tasks.entries if t.id != id])
     self.tasks.save()
 
@@ -266,19 +276,22 @@ class TaskWebBackend(Worker):
     @http_context_handler
     async def _(ctx: HTTPContext):
       deployment_id = UUID(ctx.params.get("id", ""))
-      tasks = await self.store.all_tasks_in_deployment(deployment_id)
-      topic_ids = set(itertools.chain.from_iterable((int(output["topic_id"]) for output in task.outputs) for task in tasks))
-      topic_space_id, _ = await register_topic_space(self.client, topic_ids)
-      running_deployment = RunningDeployment(id=deployment_id, topic_space_id=topic_space_id, task_instances={}, task_instance_configs={})
-      self.store.set_running_deployment(running_deployment)
-
-      async def schedule_task(task: FullTask):
-        task_instance = await self.tm_client.schedule_task(task.task_host_id, topic_space_id)
-        running_deployment.task_instances[task.id] = task_instance
-        running_deployment.task_instance_configs[task_instance.id] = task.config
-      await asyncio.gather(*(schedule_task(task) for task in tasks))
-
-      self.deployment_task_listeners[deployment_id] = asyncio.create_task(self.run_deployment_task_listener(running_deployment))
+      await self.store.get_deployment(deployment_id) # must exist
+      with self.store.change_deployment(deployment_id):
+        if deployment_id in self.store.running_deployments: raise ValueError("Deployment is running!")
+        tasks = await self.store.all_tasks_in_deployment(deployment_id)
+        topic_ids = set(itertools.chain.from_iterable((int(output["topic_id"]) for output in task.outputs) for task in tasks))
+        topic_space_id, _ = await register_topic_space(self.client, topic_ids)
+        running_deployment = RunningDeployment(id=deployment_id, topic_space_id=topic_space_id, task_instances={}, task_instance_configs={})
+        self.store.set_running_deployment(running_deployment)
+
+        async def schedule_task(task: FullTask):
+          task_instance = await self.tm_client.schedule_task(task.task_host_id, topic_space_id)
+          running_deployment.task_instances[task.id] = task_instance
+          running_deployment.task_instance_configs[task_instance.id] = task.config
+        await asyncio.gather(*(schedule_task(task) for task in tasks))
+
+        self.deployment_task_listeners[deployment_id] = asyncio.create_task(self.run_deployment_task_listener(running_deployment))
       await ctx.respond_json_string((await self.store.get_deployment(deployment_id)).model_dump_json())
 
     @router.post("/api/deployment/{id}/start")
@@ -287,12 +300,16 @@ class TaskWebBackend(Worker):
       deployment_id = UUID(ctx.params.get("id", ""))
       running_deployment = self.store.get_running_deployment(deployment_id)
 
-      async def start_task(task_id: UUID, task_instance: TaskInstance):
-        new_task_instance = await self.tm_client.start_task(task_instance.id, running_deployment.task_instance_configs.get(task_instance.id, None))
-        running_deployment.task_instances[task_id] = new_task_instance
-      await asyncio.gather(*(start_task(task_id, task_instance) for (task_id, task_instance) in running_deployment.task_instances.items()))
+      with self.store.change_deployment(deployment_id):
+        if running_deployment.started: raise ValueError("Deployment was already started!")
+        running_deployment.started = True
+
+        async def start_task(task_id: UUID, task_instance: TaskInstance):
+          new_task_instance = await self.tm_client.start_task(task_instance.id, running_deployment.task_instance_configs.get(task_instance.id, None))
+          running_deployment.task_instances[task_id] = new_task_instance
+        await asyncio.gather(*(start_task(task_id, task_instance) for (task_id, task_instance) in running_deployment.task_instances.items()))
 
-      running_deployment.task_instance_configs = None
+        running_deployment.task_instance_configs = None
       await ctx.respond_json_string((await self.store.get_deployment(deployment_id)).model_dump_json())
 
     @router.post("/api/deployment/{id}/stop")
@@ -301,15 +318,16 @@ class TaskWebBackend(Worker):
       deployment_id = UUID(ctx.params.get("id", ""))
       running_deployment = self.store.get_running_deployment(deployment_id)
 
-      async def stop_task(task_instance: TaskInstance):
-        try: await self.tm_client.cancel_task_wait(task_instance.id)
-        except TaskNotFoundError: pass
-      await asyncio.gather(*(stop_task(task_instance) for task_instance in running_deployment.task_instances.values()))
+      with self.store.change_deployment(deployment_id):
+        async def stop_task(task_instance: TaskInstance):
+          try: await self.tm_client.cancel_task_wait(task_instance.id)
+          except TaskNotFoundError: pass
+        await asyncio.gather(*(stop_task(task_instance) for task_instance in running_deployment.task_instances.values()))
 
-      await delete_topic_space(self.client, running_deployment.topic_space_id)
+        await delete_topic_space(self.client, running_deployment.topic_space_id)
 
-      if (listener_task := self.deployment_task_listeners.pop(deployment_id, None)) is not None: listener_task.cancel()
-      self.store.delete_running_deployment(deployment_id)
+        if (listener_task := self.deployment_task_listeners.pop(deployment_id, None)) is not None: listener_task.cancel()
+        self.store.delete_running_deployment(deployment_id)
 
       await ctx.respond_json_string((await self.store.get_deployment(deployment_id)).model_dump_json())
 
-- 
2.43.0


From 8400a41d96fbd845f019041006d2982f2b0e37fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:43 +0000
Subject: [PATCH 073/105] fix: a deployment kept showing tasks as running that
 ended right after their start

---
 streamtasks/system/task_web.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index 42eeb8d..88a911e 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -291,7 +291,9 @@ class TaskWebBackend(Worker):
           running_deployment.task_instance_configs[task_instance.id] = task.config
         await asyncio.gather(*(schedule_task(task) for task in tasks))
 
-        self.deployment_task_listeners[deployment_id] = asyncio.create_task(self.run_deployment_task_listener(running_deployment))
+        listener_ready = asyncio.Event()
+        self.deployment_task_listeners[deployment_id] = asyncio.create_task(self.run_deployment_task_listener(running_deployment, listener_ready))
+        await listener_ready.wait()
       await ctx.respond_json_string((await self.store.get_deployment(deployment_id)).model_dump_json())
 
     @router.post("/api/deployment/{id}/start")
@@ -306,7 +308,8 @@ class TaskWebBackend(Worker):
 
         async def start_task(task_id: UUID, task_instance: TaskInstance):
           new_task_instance = await self.tm_client.start_task(task_instance.id, running_deployment.task_instance_configs.get(task_instance.id, None))
-          running_deployment.task_instances[task_id] = new_task_instance
+          # the end of the task may have been received before
+          if running_deployment.task_instances[task_id].status.is_active: running_deployment.task_instances[task_id] = new_task_instance
         await asyncio.gather(*(start_task(task_id, task_instance) for (task_id, task_instance) in running_deployment.task_instances.items()))
 
         running_deployment.task_instance_configs = None
@@ -490,14 +493,15 @@ class TaskWebBackend(Worker):
 
     await ASGIAppRunner(self.client, app).run()
 
-  async def run_deployment_task_listener(self, deployment: RunningDeployment):
-    async for task_id, task_instance in self.receive_deployment_task_instance_updates(deployment):
+  async def run_deployment_task_listener(self, deployment: RunningDeployment, ready: asyncio.Event):
+    async for task_id, task_instance in self.receive_deployment_task_instance_updates(deployment, ready):
       deployment.task_instances[task_id] = task_instance
 
-  async def receive_deployment_task_instance_updates(self, deployment: RunningDeployment):
+  async def receive_deployment_task_instance_updates(self, deployment: RunningDeployment, ready: asyncio.Event | None = None):
     task_instance_ids = [ ti.id for ti in deployment.task_instances.values() ]
     task_instance_id_map = { ti.id: task_id for task_id, ti in deployment.task_instances.items() }
     async with self.tm_client.task_receiver(task_instance_ids) as receiver:
+      if ready is not None: ready.set()
       while True:
         task_instance = await receiver.get()
         if (task_id := task_instance_id_map.get(task_instance.id, None)) is not None:
-- 
2.43.0


From 8717b1c9741a55babbdc21192fb6eba235ce2a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:39 +0000
Subject: [PATCH 074/105] fix: paths that were registered again were listed
 twice and kept their old endpoint

---
 streamtasks/system/task_web.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index 88a911e..2060d91 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -238,7 +238,8 @@ class TaskWebBackend(Worker):
     @server.route(TaskConstants.FD_TMW_REGISTER_PATH)
     async def _(req: FetchRequest):
       body = PathRegistration.model_validate(req.body)
-      self.path_registrations.append(body)
+      # registering again replaces
+      self.path_registrations = [ reg for reg in self.path_registrations if reg.id != body.id or reg.path != body.path ] + [ body ]
       await req.respond(None)
 
     await server.run()
-- 
2.43.0


From 2f175bbcbc0407fbc892657f1fef665893e91556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:39 +0000
Subject: [PATCH 075/105] fix: paths could not be unregistered

---
 streamtasks/system/task_web.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index 2060d91..6fc8a26 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -249,7 +249,7 @@ class TaskWebBackend(Worker):
 
     @server.route(TaskConstants.SD_TMW_UNREGISTER_PATH)
     async def _(message_data: Any):
-      data = ModelWithId.model_validate(message_data)
+      data = ModelWithStrId.model_validate(message_data)
       self.path_registrations = [ reg for reg in self.path_registrations if reg.id != data.id]
 
     await server.run()
-- 
2.43.0


From abbcd0253dc15d841477562efc07f902e34048f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:39 +0000
Subject: [PATCH 076/105] fix: a registered path was served by whoever
 registered a shorter path before

---
 streamtasks/system/task_web.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index 6fc8a26..c5b8f18 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -485,7 +485,7 @@ class TaskWebBackend(Worker):
     @router.handler
     @transport_context_handler
     async def _(ctx: TransportContext):
-      for reg in self.path_registrations:
+      for reg in sorted(self.path_registrations, key=lambda reg: len(reg.path), reverse=True):
         if ctx.path.startswith(reg.path):
           return await ctx.delegate(ASGIProxyApp(self.client, reg.endpoint), { **ctx.scope, "path": ctx.path[len(reg.path) - 1:] })
       await ctx.next()
-- 
2.43.0


From d6651b7fab51a57161ba1a5d908661869ab1a8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:39 +0000
Subject: [PATCH 077/105] fix: paths stayed registered after their handler
 ended

---
 streamtasks/system/task_web.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index c5b8f18..7fe2ff6 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -18,7 +18,7 @@ from streamtasks.client.broadcast import BroadcastReceiver
 from streamtasks.client.discovery import address_name_context, delete_topic_space, get_topic_space_translation, register_topic_space, wait_for_address_name
 from streamtasks.client.fetch import FetchRequest, FetchServer
 from streamtasks.client.receiver import TopicsReceiver
-from streamtasks.client.signal import SignalServer
+from streamtasks.client.signal import SignalServer, send_signal
 from streamtasks.env import get_data_sub_dir
 from streamtasks.net import EndpointOrAddress
 from streamtasks.net.serialization import RawData
@@ -117,6 +117,7 @@ class TaskWebPathHandler(Worker):
     self.client: Client
 
   async def run(self):
+    registered_endpoints: list[EndpointOrAddress] = []
     try:
       self.client = await self.create_client()
       self.client.start()
@@ -124,9 +125,13 @@ class TaskWebPathHandler(Worker):
       for reg_ep in self.register_endpoits:
         address = reg_ep[0] if isinstance(reg_ep, tuple) else reg_ep
         if isinstance(address, str): await wait_for_address_name(self.client, address)
+        registered_endpoints.append(reg_ep)
         await self.client.fetch(reg_ep, TaskConstants.FD_TMW_REGISTER_PATH, PathRegistration(id=self.id, endpoint=self.client.address, frontend=self.frontend, path=self.path).model_dump())
       await self.run_inner()
-    finally: await self.shutdown()
+    finally:
+      unregister_tasks = [ asyncio.create_task(send_signal(self.client, reg_ep, TaskConstants.SD_TMW_UNREGISTER_PATH, ModelWithStrId(id=self.id).model_dump())) for reg_ep in registered_endpoints ]
+      if len(unregister_tasks) > 0: await asyncio.wait(unregister_tasks, timeout=1)
+      await self.shutdown()
 
   @abstractmethod
   async def run_inner(self): pass
-- 
2.43.0


From 9dc4fc8eacc3a5ffc774378847a35d46c1e2a658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:39 +0000
Subject: [PATCH 078/105] fix: web requests to restarted task hosts were sent
 to where they were before

---
 streamtasks/system/task_web.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index 7fe2ff6..d148a4d 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -218,8 +218,6 @@ class TaskWebBackend(Worker):
     super().__init__()
     self.task_manager_address_name = task_manager_address_name
     self.address_name = address_name
-    self.task_host_asgi_handlers: dict[str, ASGIHandler] = {}
-    self.task_asgi_handlers: dict[UUID4, ASGIHandler] = {}
     self.deployment_task_listeners: dict[UUID4, asyncio.Task] = {}
     self.path_registrations: list[PathRegistration] = []
     self.store = TaskWebBackendStore()
@@ -514,16 +512,12 @@ class TaskWebBackend(Worker):
           yield (task_id, task_instance)
 
   async def get_task_host_asgi_handler(self, id: str) -> ASGIHandler:
-    if (router := self.task_host_asgi_handlers.get(id, None)) is None:
-      reg: TaskHostRegistration = await self.tm_client.get_task_host(id)
-      self.task_host_asgi_handlers[id] = router = self._metadata_to_router(reg.metadata)
-    return router
+    reg: TaskHostRegistration = await self.tm_client.get_task_host(id)
+    return self._metadata_to_router(reg.metadata)
 
   async def get_task_asgi_handler(self, id: UUID4) -> ASGIHandler:
-    if (router := self.task_asgi_handlers.get(id, None)) is None:
-      reg: TaskInstance = await self.tm_client.get_task(id)
-      self.task_asgi_handlers[id] = router = self._metadata_to_router(reg.metadata)
-    return router
+    reg: TaskInstance = await self.tm_client.get_task(id)
+    return self._metadata_to_router(reg.metadata)
 
   def _metadata_to_router(self, metadata: MetadataDict) -> ASGIHandler:
     router = ASGIRouter()
-- 
2.43.0


From 4e7c2e387f003df6757db8c7936c12f61525d167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:39 +0000
Subject: [PATCH 079/105] fix: applications were not told about requesters that
 went away, and their requests stayed open

---
 streamtasks/asgi.py | 66 ++++++++++++++++++++++-----------------------
 1 file changed, 33 insertions(+), 33 deletions(-)

diff --git a/streamtasks/asgi.py b/streamtasks/asgi.py
index 00c69fc..d5cd244 100644
--- a/streamtasks/asgi.py
+++ b/streamtasks/asgi.py
@@ -196,39 +196,39 @@ class ASGIProxyApp:
     ser_scope = JSONValueTransformer.annotate_value(scope)
 
     port = self._client.get_free_port()
-    receiver = ASGIEventReceiver(self._client, port)
-    await receiver.start_recv() # NOTE: must be enabled before sending init message, otherwise events will be lost
-
-    init_respose_raw = await self._client.fetch(self._remote_endpoint, ASGIConstants.FD_DESCRIPTOR, ASGIInitRequest(
-      address=self._client.address,
-      port=port,
-      scope=ser_scope).model_dump())
-    init_respose = ASGIInitResponse.model_validate(init_respose_raw)
-
-    closed_event = asyncio.Event()
-    sender = ASGIEventSender(self._client, (self._remote_endpoint[0], init_respose.port))
-
-    async def recv_loop():
-      while not closed_event.is_set():
-        event = await receive()
-        await sender.send(event)
-        await asyncio.sleep(0)
-        event_type = event.get("type", None)
-        if event_type == "http.disconnect" or event_type == "websocket.disconnect": closed_event.set()
-
-    async def send_loop():
-      while not closed_event.is_set():
-        await asyncio.sleep(0)
-        data = await receiver.get()
-        for event in data.events: await send(MessagePackValueTransformer.deannotate_value(event))
-        if data.closed: closed_event.set()
-
-    recv_task = asyncio.create_task(recv_loop())
-    send_task = asyncio.create_task(send_loop())
-    await closed_event.wait()
-    await receiver.stop_recv()
-    recv_task.cancel()
-    send_task.cancel()
+    async with ASGIEventReceiver(self._client, port) as receiver: # NOTE: must be enabled before sending init message, otherwise events will be lost
+      init_respose_raw = await self._client.fetch(self._remote_endpoint, ASGIConstants.FD_DESCRIPTOR, ASGIInitRequest(
+        address=self._client.address,
+        port=port,
+        scope=ser_scope).model_dump())
+      init_respose = ASGIInitResponse.model_validate(init_respose_raw)
+
+      closed_event = asyncio.Event()
+      sender = ASGIEventSender(self._client, (self._remote_endpoint[0], init_respose.port))
+
+      async def recv_loop():
+        while not closed_event.is_set():
+          event = await receive()
+          await sender.send(event)
+          await asyncio.sleep(0)
+          event_type = event.get("type", None)
+          if event_type == "http.disconnect" or event_type == "websocket.disconnect": closed_event.set()
+
+      async def send_loop():
+        while not closed_event.is_set():
+          await asyncio.sleep(0)
+          data = await receiver.get()
+          for event in data.events: await send(MessagePackValueTransformer.deannotate_value(event))
+          if data.closed: closed_event.set()
+
+      tasks = [ asyncio.create_task(recv_loop()), asyncio.create_task(send_loop()) ]
+      try:
+        done, _ = await asyncio.wait(tasks, return_when="FIRST_COMPLETED")
+        for task in done: task.result()
+      finally:
+        for task in tasks: task.cancel()
+        # the requester is gone, tell the application
+        if not closed_event.is_set(): await sender.send({ "type": "websocket.disconnect", "code": 1006 } if scope.get("type") == "websocket" else { "type": "http.disconnect" })
 
 class HTTPServerOverASGI(Worker):
   def __init__(self, http_endpoint: tuple[str, int], asgi_endpoint: EndpointOrAddress, http_config: dict[str, Any] = {}):
-- 
2.43.0


From 20371874264b4533079e14c730ad5559262c8d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:38 +0000
Subject: [PATCH 080/105] fix: a task cancelled twice was reported as stopped
 while its thread was running

---
 streamtasks/system/task.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index 7d33b9d..373ebda 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -47,6 +47,9 @@ class SyncTask(Task):
         await asyncio.shield(fut)
       finally:
         self.stop_event.set()
+        while fut and not fut.done():
+          try: await asyncio.wait([fut])
+          except asyncio.CancelledError: pass # the thread cannot be interrupted
         if fut: await fut
 
   @abstractmethod
-- 
2.43.0


From 42a1a2642e563e9a8e8cbacef24e2cfd1c168028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:57 +0000
Subject: [PATCH 081/105] fix: the last messages of a task host were lost when
 it was shut down

---
 streamtasks/system/task.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index 373ebda..d8e11e3 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -190,6 +190,11 @@ class TaskHost(Worker):
     self._registered_at_endpoints = [ ep for ep in self._registered_at_endpoints if ep!= endpoint ]
     await send_signal(self.client, endpoint, TaskConstants.SD_UNREGISTER_TASK_HOST, ModelWithStrId(id=self.id).model_dump())
 
+  async def unregister_wait(self, endpoint: EndpointOrAddress = NetworkAddressNames.TASK_MANAGER):
+    await self.unregister(endpoint)
+    try: await self.client.fetch(endpoint, TaskConstants.FD_TM_GET_TASK_HOST, ModelWithStrId(id=self.id).model_dump()) # answered after everything sent before arrived
+    except FetchError: pass
+
   async def run(self):
     try:
       self.client = await self.create_client()
@@ -220,8 +225,9 @@ class TaskHost(Worker):
       running_tasks = list(self.tasks.values())
       for task in running_tasks: task.cancel()
       if len(running_tasks) > 0: await asyncio.wait(running_tasks, timeout=1) # NOTE: make configurable
-      unregister_tasks = [ asyncio.create_task(self.unregister(ep)) for ep in self._registered_at_endpoints ]
+      unregister_tasks = [ asyncio.create_task(self.unregister_wait(ep)) for ep in self._registered_at_endpoints ]
       if len(unregister_tasks) > 0: await asyncio.wait(unregister_tasks, timeout=1)
+      for task in unregister_tasks: task.cancel()
       await self.shutdown()
       self.ready.clear()
 
-- 
2.43.0


From 4c50bd7c4e929a7c4145b0bd5b772c3b27955ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:58 +0000
Subject: [PATCH 082/105] fix: deployments with a task that was over before
 they were started were left half started

---
 streamtasks/system/task_web.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index d148a4d..39e1cce 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -16,7 +16,7 @@ from streamtasks.asgiserver import ASGIHandler, ASGIRouter, ASGIServer, HTTPCont
 from streamtasks.client import Client
 from streamtasks.client.broadcast import BroadcastReceiver
 from streamtasks.client.discovery import address_name_context, delete_topic_space, get_topic_space_translation, register_topic_space, wait_for_address_name
-from streamtasks.client.fetch import FetchRequest, FetchServer
+from streamtasks.client.fetch import FetchError, FetchErrorStatusCode, FetchRequest, FetchServer
 from streamtasks.client.receiver import TopicsReceiver
 from streamtasks.client.signal import SignalServer, send_signal
 from streamtasks.env import get_data_sub_dir
@@ -311,7 +311,10 @@ class TaskWebBackend(Worker):
         running_deployment.started = True
 
         async def start_task(task_id: UUID, task_instance: TaskInstance):
-          new_task_instance = await self.tm_client.start_task(task_instance.id, running_deployment.task_instance_configs.get(task_instance.id, None))
+          try: new_task_instance = await self.tm_client.start_task(task_instance.id, running_deployment.task_instance_configs.get(task_instance.id, None))
+          except FetchError as e:
+            if e.status_code != FetchErrorStatusCode.NOT_FOUND: raise
+            return # the task is over, e.g. because its task host was unregistered
           # the end of the task may have been received before
           if running_deployment.task_instances[task_id].status.is_active: running_deployment.task_instances[task_id] = new_task_instance
         await asyncio.gather(*(start_task(task_id, task_instance) for (task_id, task_instance) in running_deployment.task_instances.items()))
-- 
2.43.0


From 80afdfe29dd7b5f3b257c1b29cce679a006f1219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:19 +0000
Subject: [PATCH 083/105] fix: paths of handlers stayed registered at all but
 one web interface when they ended

---
 streamtasks/system/task.py     |  1 +
 streamtasks/system/task_web.py | 17 ++++++++++++-----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index d8e11e3..854246a 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -134,6 +134,7 @@ class TaskConstants:
   FD_TM_TASK_CANCEL = "cancel_task"
 
   FD_TMW_REGISTER_PATH = "register_path"
+  FD_TMW_UNREGISTER_PATH = "unregister_path"
 
   FD_TASK_START = "start"
   FD_TASK_CANCEL = "cancel"
diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index 39e1cce..65a79a7 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -18,7 +18,7 @@ from streamtasks.client.broadcast import BroadcastReceiver
 from streamtasks.client.discovery import address_name_context, delete_topic_space, get_topic_space_translation, register_topic_space, wait_for_address_name
 from streamtasks.client.fetch import FetchError, FetchErrorStatusCode, FetchRequest, FetchServer
 from streamtasks.client.receiver import TopicsReceiver
-from streamtasks.client.signal import SignalServer, send_signal
+from streamtasks.client.signal import SignalServer
 from streamtasks.env import get_data_sub_dir
 from streamtasks.net import EndpointOrAddress
 from streamtasks.net.serialization import RawData
@@ -129,8 +129,10 @@ class TaskWebPathHandler(Worker):
         await self.client.fetch(reg_ep, TaskConstants.FD_TMW_REGISTER_PATH, PathRegistration(id=self.id, endpoint=self.client.address, frontend=self.frontend, path=self.path).model_dump())
       await self.run_inner()
     finally:
-      unregister_tasks = [ asyncio.create_task(send_signal(self.client, reg_ep, TaskConstants.SD_TMW_UNREGISTER_PATH, ModelWithStrId(id=self.id).model_dump())) for reg_ep in registered_endpoints ]
+      # wait for the answers, what is not yet sent when the worker is shut down gets lost
+      unregister_tasks = [ asyncio.create_task(self.client.fetch(reg_ep, TaskConstants.FD_TMW_UNREGISTER_PATH, ModelWithStrId(id=self.id).model_dump())) for reg_ep in registered_endpoints ]
       if len(unregister_tasks) > 0: await asyncio.wait(unregister_tasks, timeout=1)
+      for task in unregister_tasks: task.cancel()
       await self.shutdown()
 
   @abstractmethod
@@ -245,15 +247,20 @@ class TaskWebBackend(Worker):
       self.path_registrations = [ reg for reg in self.path_registrations if reg.id != body.id or reg.path != body.path ] + [ body ]
       await req.respond(None)
 
+    @server.route(TaskConstants.FD_TMW_UNREGISTER_PATH)
+    async def _(req: FetchRequest):
+      self.unregister_paths(ModelWithStrId.model_validate(req.body).id)
+      await req.respond(None)
+
     await server.run()
 
+  def unregister_paths(self, id: str): self.path_registrations = [ reg for reg in self.path_registrations if reg.id != id ]
+
   async def run_signal_api(self):
     server = SignalServer(self.client)
 
     @server.route(TaskConstants.SD_TMW_UNREGISTER_PATH)
-    async def _(message_data: Any):
-      data = ModelWithStrId.model_validate(message_data)
-      self.path_registrations = [ reg for reg in self.path_registrations if reg.id != data.id]
+    async def _(message_data: Any): self.unregister_paths(ModelWithStrId.model_validate(message_data).id)
 
     await server.run()
 
-- 
2.43.0


From ebae97b365c6cd7690ea163c8fc89bb8d85d8995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 084/105] fix: the last messages of a worker were lost when it
 was shut down

---
 streamtasks/net/__init__.py | 22 ++++++++++++++++++----
 streamtasks/worker.py       |  4 +++-
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/streamtasks/net/__init__.py b/streamtasks/net/__init__.py
index 5aabcd6..bced32c 100644
--- a/streamtasks/net/__init__.py
+++ b/streamtasks/net/__init__.py
@@ -99,6 +99,9 @@ class Link(ABC):
       finally: self._receiver = None
     return message
 
+  async def flush_received(self): pass
+  async def flush_sent(self): pass
+
   @abstractmethod
   async def _send(self, message: Message): pass
 
@@ -168,19 +171,23 @@ class QueueLink(Link):
     super().__init__()
     self.out_messages = out_messages
     self.in_messages = in_messages
+    self._handling = False
+
+  async def flush_received(self): await self.in_messages.join()
+  async def flush_sent(self): await self.out_messages.join()
 
   async def _send(self, message: Message): await self.out_messages.put(message)
   async def _recv(self) -> Message:
+    if self._handling: self.in_messages.task_done() # the previous message was handled
+    self._handling = False
     result = await self.in_messages.get()
-    self.in_messages.task_done()
+    self._handling = True
     return result
 
 class RawQueueLink(QueueLink):
   async def _send(self, message: Message): await self.out_messages.put(serialize_message(message))
   async def _recv(self) -> Message:
-    result = await self.in_messages.get()
-    self.in_messages.task_done()
-    return deserialize_message(result)
+    return deserialize_message(await super()._recv())
 
 def create_queue_connection(raw: bool = False) -> tuple[Link, Link]:
   queue_a, queue_b = asyncio.Queue(), asyncio.Queue()
@@ -261,6 +268,13 @@ class Switch:
     await asyncio.gather(*sends)
 
   def stop_receiving(self): self.link_manager.cancel_all()
+  async def flush(self, timeout: float):
+    """ waits until everything sent to the links was handled and everything sent by them was received """
+    try:
+      async with asyncio.timeout(timeout):
+        for link in list(self.link_manager.links): await link.flush_received()
+        for link in list(self.link_manager.links): await link.flush_sent()
+    except asyncio.TimeoutError: pass
   async def _send_to_link(self, message: Message, link: Link):
     try: await link.send(message)
     except ConnectionClosedError: pass # the closed link is removed by its own receiver
diff --git a/streamtasks/worker.py b/streamtasks/worker.py
index 30f6666..65b0ca0 100644
--- a/streamtasks/worker.py
+++ b/streamtasks/worker.py
@@ -10,4 +10,6 @@ class Worker:
 
   @abstractmethod
   async def run(self): pass
-  async def shutdown(self): self.switch.stop_receiving()
+  async def shutdown(self):
+    try: await self.switch.flush(timeout=0.1) # what was sent before is not lost
+    finally: self.switch.stop_receiving()
-- 
2.43.0


From 39f38fcf0d8b2fca1c9bfc3b68a7fc3968061f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 085/105] fix: applications were not told about requesters that
 left while they were started

---
 streamtasks/asgi.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/streamtasks/asgi.py b/streamtasks/asgi.py
index d5cd244..d56b10d 100644
--- a/streamtasks/asgi.py
+++ b/streamtasks/asgi.py
@@ -192,16 +192,20 @@ class ASGIProxyApp:
     if client.address is None: raise Exception("The client must have at least one address to host an ASGI application")
     self._client = client
     self._remote_endpoint = endpoint_or_address_to_endpoint(remote_endpoint, NetworkPorts.ASGI)
+    self._tasks = AsyncTaskManager()
   async def __call__(self, scope, receive: Callable[[], Awaitable[dict]], send: Callable[[dict], Awaitable[None]]):
     ser_scope = JSONValueTransformer.annotate_value(scope)
 
     port = self._client.get_free_port()
     async with ASGIEventReceiver(self._client, port) as receiver: # NOTE: must be enabled before sending init message, otherwise events will be lost
-      init_respose_raw = await self._client.fetch(self._remote_endpoint, ASGIConstants.FD_DESCRIPTOR, ASGIInitRequest(
+      init_task = self._tasks.create(self._client.fetch(self._remote_endpoint, ASGIConstants.FD_DESCRIPTOR, ASGIInitRequest(
         address=self._client.address,
         port=port,
-        scope=ser_scope).model_dump())
-      init_respose = ASGIInitResponse.model_validate(init_respose_raw)
+        scope=ser_scope).model_dump()))
+      try: init_respose = ASGIInitResponse.model_validate(await asyncio.shield(init_task))
+      except asyncio.CancelledError:
+        self._tasks.create(self._disconnect_started(init_task, scope))
+        raise
 
       closed_event = asyncio.Event()
       sender = ASGIEventSender(self._client, (self._remote_endpoint[0], init_respose.port))
@@ -228,7 +232,14 @@ class ASGIProxyApp:
       finally:
         for task in tasks: task.cancel()
         # the requester is gone, tell the application
-        if not closed_event.is_set(): await sender.send({ "type": "websocket.disconnect", "code": 1006 } if scope.get("type") == "websocket" else { "type": "http.disconnect" })
+        if not closed_event.is_set(): await sender.send(self._disconnect_event(scope))
+
+  async def _disconnect_started(self, init_task: asyncio.Task, scope: dict):
+    """ tells an application that was started for a requester that is already gone """
+    init_respose = ASGIInitResponse.model_validate(await asyncio.wait_for(init_task, 60))
+    await ASGIEventSender(self._client, (self._remote_endpoint[0], init_respose.port)).send(self._disconnect_event(scope))
+
+  def _disconnect_event(self, scope: dict): return { "type": "websocket.disconnect", "code": 1006 } if scope.get("type") == "websocket" else { "type": "http.disconnect" }
 
 class HTTPServerOverASGI(Worker):
   def __init__(self, http_endpoint: tuple[str, int], asgi_endpoint: EndpointOrAddress, http_config: dict[str, Any] = {}):
-- 
2.43.0


From b491cc4f6f6ef9dcdeb5eeeceb3c083bc1acd29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:48 +0000
Subject: [PATCH 086/105] fix: a receive of an application next to another one
 got stuck

---
 streamtasks/asgi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/asgi.py b/streamtasks/asgi.py
index d56b10d..ce5483a 100644
--- a/streamtasks/asgi.py
+++ b/streamtasks/asgi.py
@@ -167,12 +167,12 @@ class ASGIAppRunner:
       await asyncio.sleep(0)
 
     async def receive() -> dict:
+      await asyncio.sleep(0)
       while recv_queue.empty() and not stop_signal.is_set():
         data = await receiver.get()
         for event in data.events:
           event = MessagePackValueTransformer.deannotate_value(event)
           await recv_queue.put(event)
-      await asyncio.sleep(0)
       return await recv_queue.get()
 
     async def run():
-- 
2.43.0


From f6e030e685b460dbcecbe2bc4a8dced872fb323a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:50 +0000
Subject: [PATCH 087/105] fix: function tasks with a timestamp were refused

---
 streamtasks/system/fntask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/fntask.py b/streamtasks/system/fntask.py
index 86b52a4..d9b8efd 100644
--- a/streamtasks/system/fntask.py
+++ b/streamtasks/system/fntask.py
@@ -331,7 +331,7 @@ class FnTaskConfig:
     if "config" in params: config_type = params.pop("config").annotation
     if "state" in params: state_type = params.pop("state").annotation
     if "timestamp" in params:
-      if not typing.get_origin(params.pop("timestamp").annotation) is int: raise ValueError("timestamp must be of type int!")
+      if params.pop("timestamp").annotation is not int: raise ValueError("timestamp must be of type int!")
       has_timestamp = True
 
     inputs = [ FnTaskInputConfig.from_parameter(param) for param in params.values() ]
-- 
2.43.0


From 41d2ea7ea12a7c8eb0f00b38354fcf3f1d0bb9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:50 +0000
Subject: [PATCH 088/105] fix: function tasks with a state but no config were
 refused

---
 streamtasks/system/fntask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/fntask.py b/streamtasks/system/fntask.py
index d9b8efd..d20737c 100644
--- a/streamtasks/system/fntask.py
+++ b/streamtasks/system/fntask.py
@@ -295,7 +295,7 @@ class FnTaskConfig:
         raise ValueError("The config class needs to have a constructor allowing the creation of an instance without any parameters.")
       self.config_type_adapter # make sure this can be created
 
-    if self.state_type is not None and not _validate_object_create_empty(self.config_type):
+    if self.state_type is not None and not _validate_object_create_empty(self.state_type):
       raise ValueError("The state class needs to have a constructor allowing the creation of an instance without any parameters.")
 
   async def execute(self, timestamp: int, params: dict[str, Any], state: Any, config: Any) -> tuple:
-- 
2.43.0


From 7dc4679b472f4632df5f747c47dce267abe0325a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:42 +0000
Subject: [PATCH 089/105] fix: function tasks without outputs failed at their
 first call

---
 streamtasks/system/fntask.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streamtasks/system/fntask.py b/streamtasks/system/fntask.py
index d20737c..b3da6bc 100644
--- a/streamtasks/system/fntask.py
+++ b/streamtasks/system/fntask.py
@@ -313,6 +313,7 @@ class FnTaskConfig:
       else: result = fn()
 
     if isinstance(result, tuple): return result
+    elif result is None and len(self.outputs) == 0: return ()
     else: return (result,)
 
   @staticmethod
-- 
2.43.0


From a593083256fc79f8add740480f94417910e629dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:42 +0000
Subject: [PATCH 090/105] fix: failed function tasks went on calling their
 function

---
 streamtasks/system/fntask.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/streamtasks/system/fntask.py b/streamtasks/system/fntask.py
index b3da6bc..56787a9 100644
--- a/streamtasks/system/fntask.py
+++ b/streamtasks/system/fntask.py
@@ -107,6 +107,7 @@ class _FnTask(Task):
     self.inputs = [ _FnTaskInput(input_topics[input.name], input) for input in root_config.inputs ]
 
     self.execute_lock = asyncio.Lock()
+    self.failed = False
 
     self.param_values: dict[str, Any] = {}
     self.state = root_config.new_state()
@@ -121,7 +122,10 @@ class _FnTask(Task):
         await exit_stack.enter_async_context(o.topic.RegisterContext())
 
       self.client.start()
-      await asyncio.gather(*(self._run_input(input) for input in self.inputs))
+      input_tasks = [ asyncio.create_task(self._run_input(input)) for input in self.inputs ]
+      try: await asyncio.gather(*input_tasks)
+      finally:
+        for task in input_tasks: task.cancel()
 
   async def execute(self, timestamp: int):
     for input in self.inputs:
@@ -144,8 +148,13 @@ class _FnTask(Task):
         data = await input.topic.recv_data()
         timestamp, value = _DATA_TO_VALUE[input.config.data_type](data.data)
         async with self.execute_lock:
+          if self.failed: return
           self.param_values[input.config.name] = value
-          await self.execute(timestamp)
+          try: await self.execute(timestamp)
+          except ValidationError: raise
+          except BaseException:
+            self.failed = True
+            raise
       except ValidationError:
         logging.warning(f"Failed to parse message value on task {self.root_config.name}, input {input.config.name}!")
 
-- 
2.43.0


From 80faa9b4a6d45ac3d90ba85bb904ec98bcd70b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:06 +0000
Subject: [PATCH 091/105] fix: lists of pairs and empty lists were shown as
 objects in topic views

---
 streamtasks/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/streamtasks/utils.py b/streamtasks/utils.py
index 46fa2e6..b98bf2b 100644
--- a/streamtasks/utils.py
+++ b/streamtasks/utils.py
@@ -338,9 +338,11 @@ def make_json_serializable(v: Any):
     if math.isnan(v): return "NaN"
     else: return v
   if isinstance(v, (bytes, bytearray, memoryview)): return v.hex()
-  try: v = dict(v)
-  except (TypeError, ValueError): v = list(v)
-  except: pass
+  if not isinstance(v, (list, tuple)):
+    try: v = dict(v)
+    except (TypeError, ValueError): v = list(v)
+    except: pass
+  else: v = list(v)
   if isinstance(v, dict): return { make_json_serializable(k): make_json_serializable(v) for k, v in v.items() }
   if isinstance(v, list): return [ make_json_serializable(v) for v in v ]
   return repr(v)
-- 
2.43.0


From 6d66436d14c0f386e5b3a41d5f3cd2041aff976e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:06 +0000
Subject: [PATCH 092/105] fix: messages with infinite numbers were missing in
 topic views

---
 streamtasks/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streamtasks/utils.py b/streamtasks/utils.py
index b98bf2b..091fbe0 100644
--- a/streamtasks/utils.py
+++ b/streamtasks/utils.py
@@ -336,6 +336,7 @@ def make_json_serializable(v: Any):
   if isinstance(v, (str, int, bool)) or v is None: return v
   if isinstance(v, float):
     if math.isnan(v): return "NaN"
+    if math.isinf(v): return "Infinity" if v > 0 else "-Infinity"
     else: return v
   if isinstance(v, (bytes, bytearray, memoryview)): return v.hex()
   if not isinstance(v, (list, tuple)):
-- 
2.43.0


From ac7c522f1330038a02396c342402b50ed56dd887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:25 +0000
Subject: [PATCH 093/105] fix: value views kept showing an old value when it
 changed while it was sent

---
 streamtasks/system/tasks/ui/controlbase.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/ui/controlbase.py b/streamtasks/system/tasks/ui/controlbase.py
index 30172f6..d134318 100644
--- a/streamtasks/system/tasks/ui/controlbase.py
+++ b/streamtasks/system/tasks/ui/controlbase.py
@@ -89,8 +89,10 @@ class UIBaseTask(Task, Generic[C, V]):
       try:
         await ctx.accept()
         receive_disconnect_task = asyncio.create_task(ctx.receive_disconnect())
+        value_changed = self.wait_value_changed()
         while ctx.connected:
-          await wait_with_dependencies(self.wait_value_changed(), [receive_disconnect_task])
+          await wait_with_dependencies(value_changed, [receive_disconnect_task])
+          value_changed = self.wait_value_changed() # the value may change while it is sent
           await ctx.send_message(self._value.model_dump_json())
       finally:
         receive_disconnect_task.cancel()
-- 
2.43.0


From abd5e35420f2ed3c6f38a4c65efe46a5f5b8b227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:25 +0000
Subject: [PATCH 094/105] fix: text displays with a length of zero kept all
 text

---
 streamtasks/system/tasks/ui/textdisplay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/ui/textdisplay.py b/streamtasks/system/tasks/ui/textdisplay.py
index a39065f..108636f 100644
--- a/streamtasks/system/tasks/ui/textdisplay.py
+++ b/streamtasks/system/tasks/ui/textdisplay.py
@@ -37,7 +37,7 @@ class TextDisplayTask(UIBaseTask[TextDisplayConfig, TextDisplayValue]):
         message = TextMessage.model_validate(data.data)
         if self.config.append: new_text = self.value.value + self.config.seperator + message.value
         else: new_text = message.value
-        if self.config.max_length != -1: new_text = new_text[-self.config.max_length:]
+        if self.config.max_length != -1: new_text = new_text[max(len(new_text) - self.config.max_length, 0):]
         self.value = TextDisplayValue(value=new_text)
       except ValidationError: pass
 
-- 
2.43.0


From b3bb82251fc8a9ac15170baff65daa798e3bf513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:06 +0000
Subject: [PATCH 095/105] fix: media switches continued a stream without a
 keyframe after leaving it out for a while

---
 streamtasks/system/tasks/media/mediaswitch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streamtasks/system/tasks/media/mediaswitch.py b/streamtasks/system/tasks/media/mediaswitch.py
index 1e062a7..5c95db0 100644
--- a/streamtasks/system/tasks/media/mediaswitch.py
+++ b/streamtasks/system/tasks/media/mediaswitch.py
@@ -25,6 +25,7 @@ class MediaSwitchTask(SwitchTask):
             except ValidationError: pass
           if idx == self._active_index:
             await self.out_topic.send(data)
+      elif idx == self._active_index and not isinstance(data, TopicControlData): self._active_index = -1 # continue with a keyframe, this packet is missing
 
 class MediaSwitchTaskHost(TaskHost):
   @property
-- 
2.43.0


From 5d77fa809bd25ce959a13fea36ee10c333ce6a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:40 +0000
Subject: [PATCH 096/105] fix: audio mixers failed when they received a chunk
 of odd size

---
 streamtasks/system/tasks/media/audiomixer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/media/audiomixer.py b/streamtasks/system/tasks/media/audiomixer.py
index 628cfe8..dae4f14 100644
--- a/streamtasks/system/tasks/media/audiomixer.py
+++ b/streamtasks/system/tasks/media/audiomixer.py
@@ -94,7 +94,7 @@ class AudioMixerTask(Task):
             ddebug_value("track sample rate", id(track.sequencer), sample_count * 1000 / (message.timestamp - t0))
           track.sequencer.insert(Fraction(message.timestamp, 1000), samples)
           await self.send_next()
-      except ValidationError: pass
+      except (ValidationError, ValueError): pass
 
   async def send_next(self):
     if any(True for track in self.audio_tracks if not track.is_paused and not track.sequencer.started): return # not ready yet
-- 
2.43.0


From 0ff5d0d1b224f7bd8aa4eb7d091cf0d2fea0084e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:02 +0000
Subject: [PATCH 097/105] fix: audio mixers cut samples off a track after a
 chunk that had been covered already

---
 streamtasks/media/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/media/util.py b/streamtasks/media/util.py
index 75732a7..2c255e8 100644
--- a/streamtasks/media/util.py
+++ b/streamtasks/media/util.py
@@ -245,7 +245,7 @@ class AudioSequencer:
             self._strech_sample_buffer(new_buf_length)
           else:
             self._sample_buffer = np.concatenate((self._sample_buffer, samples[desync_sample_count:]), axis=0)
-          self._desync_time += Fraction(min(desync_sample_count, samples.shape[0]), self._sample_rate)
+          self._desync_time += Fraction(desync_sample_count, self._sample_rate)
         else:
           new_buf_length = self._sample_buffer.shape[0] + desync_sample_count + samples.shape[0]
           if next_sample_count != 0 and new_buf_length / next_sample_count < self._max_stretch_ratio:
-- 
2.43.0


From 47e3e19d4afa009a142da7eab793458197771d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:25 +0000
Subject: [PATCH 098/105] fix: audio and video blocks ended when they received
 a chunk of wrong size

---
 streamtasks/system/tasks/media/audiovolumemeter.py   | 2 +-
 streamtasks/system/tasks/media/audiovolumescaler.py  | 2 +-
 streamtasks/system/tasks/media/videoactivitymeter.py | 4 ++--
 streamtasks/system/tasks/media/videolayout.py        | 3 ++-
 4 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/streamtasks/system/tasks/media/audiovolumemeter.py b/streamtasks/system/tasks/media/audiovolumemeter.py
index 93627c6..9d69d36 100644
--- a/streamtasks/system/tasks/media/audiovolumemeter.py
+++ b/streamtasks/system/tasks/media/audiovolumemeter.py
@@ -65,7 +65,7 @@ class AudioVolumeMeterTask(SyncTask):
         message = self.message_queue.get(timeout=0.5)
         for chunk, timestamp in chunker.next(audio_buffer_to_ndarray(message.data, self.config.sample_format)[0], message.timestamp):
           self.send_data(self.out_topic, RawData(NumberMessage(timestamp=timestamp, value=np.sqrt(np.mean(np.abs(chunk) / self.max_value))).model_dump()))
-      except queue.Empty: pass
+      except (queue.Empty, ValueError): pass
 
 class AudioVolumeMeterTaskHost(TaskHost):
   @property
diff --git a/streamtasks/system/tasks/media/audiovolumescaler.py b/streamtasks/system/tasks/media/audiovolumescaler.py
index 8c417bd..129e204 100644
--- a/streamtasks/system/tasks/media/audiovolumescaler.py
+++ b/streamtasks/system/tasks/media/audiovolumescaler.py
@@ -75,7 +75,7 @@ class AudioVolumeScalerTask(SyncTask):
         samples = audio_buffer_to_samples(message.data, sample_format=self.config.sample_format, channels=self.config.channels)
         samples = np.clip(samples * self.scale, samples_dtype_min_max[0], samples_dtype_min_max[1]).astype(samples_dtype)
         self.send_data(self.out_topic, RawData(TimestampChuckMessage(timestamp=message.timestamp, data=samples.tobytes("C")).model_dump()))
-      except queue.Empty: pass
+      except (queue.Empty, ValueError): pass
 
   async def _run_recv_scale(self):
     while True:
diff --git a/streamtasks/system/tasks/media/videoactivitymeter.py b/streamtasks/system/tasks/media/videoactivitymeter.py
index 5ca58b0..a451ea5 100644
--- a/streamtasks/system/tasks/media/videoactivitymeter.py
+++ b/streamtasks/system/tasks/media/videoactivitymeter.py
@@ -59,10 +59,10 @@ class VideoActivityMeterTask(SyncTask):
       try:
         message = self.message_queue.get(timeout=timeout)
         bitmap = video_buffer_to_ndarray(message.data, self.config.width, self.config.height)
-        if last_bitmap is not None:
+        if last_bitmap is not None and last_bitmap.shape == bitmap.shape:
           self.send_data(self.out_topic, RawData(NumberMessage(timestamp=message.timestamp, value=np.abs(last_bitmap - bitmap).flatten().mean()).model_dump()))
         last_bitmap = bitmap
-      except queue.Empty: pass
+      except (queue.Empty, ValueError): pass
 
 class VideoActivityMeterTaskHost(TaskHost):
   @property
diff --git a/streamtasks/system/tasks/media/videolayout.py b/streamtasks/system/tasks/media/videolayout.py
index 36344db..58643a7 100644
--- a/streamtasks/system/tasks/media/videolayout.py
+++ b/streamtasks/system/tasks/media/videolayout.py
@@ -81,6 +81,7 @@ class VideoLayoutTask(SyncTask):
     while not self.stop_event.is_set():
       try:
         message = self.message_queue.get(timeout=timeout)
+        if len(message.data) != self.config.in_width * self.config.in_height * 4: raise ValueError("Invalid frame size!")
         arr = video_buffer_to_ndarray(message.data, self.config.in_width, self.config.in_height)
         arr = cv2.resize(arr, (self.config.place_width, self.config.place_height), interpolation=cv2.INTER_LINEAR)
         arr = arr[:self.config.apply_height,:self.config.apply_width,:]
@@ -88,7 +89,7 @@ class VideoLayoutTask(SyncTask):
         out_data = np.zeros((self.config.out_height, self.config.out_width, 4), dtype=np.uint8)
         out_data[self.config.place_top_offset:self.config.place_top_offset + arr.shape[0], self.config.place_left_offset:self.config.place_left_offset + arr.shape[1]] = arr
         self.send_data(self.out_topic, RawData(TimestampChuckMessage(timestamp=message.timestamp, data=out_data.tobytes("C")).model_dump()))
-      except queue.Empty: pass
+      except (queue.Empty, ValueError): pass
 
 class VideoLayoutTaskHost(TaskHost):
   @property
-- 
2.43.0


From 86f746d44fe64427e45ca7ee5cf9bd2ab3c02183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:25 +0000
Subject: [PATCH 099/105] fix: audio volume scalers used scales on audio from
 before them

---
 streamtasks/system/tasks/media/audiovolumescaler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/streamtasks/system/tasks/media/audiovolumescaler.py b/streamtasks/system/tasks/media/audiovolumescaler.py
index 129e204..0d712a8 100644
--- a/streamtasks/system/tasks/media/audiovolumescaler.py
+++ b/streamtasks/system/tasks/media/audiovolumescaler.py
@@ -46,7 +46,7 @@ class AudioVolumeScalerTask(SyncTask):
     self.out_topic = self.client.out_topic(config.out_topic)
     self.config = config
     self.scale = config.default_scale
-    self.message_queue: queue.Queue[TimestampChuckMessage] = queue.Queue()
+    self.message_queue: queue.Queue[tuple[TimestampChuckMessage, float]] = queue.Queue()
 
   @asynccontextmanager
   async def init(self):
@@ -71,9 +71,9 @@ class AudioVolumeScalerTask(SyncTask):
 
     while not self.stop_event.is_set():
       try:
-        message = self.message_queue.get(timeout=0.5)
+        message, scale = self.message_queue.get(timeout=0.5)
         samples = audio_buffer_to_samples(message.data, sample_format=self.config.sample_format, channels=self.config.channels)
-        samples = np.clip(samples * self.scale, samples_dtype_min_max[0], samples_dtype_min_max[1]).astype(samples_dtype)
+        samples = np.clip(samples * scale, samples_dtype_min_max[0], samples_dtype_min_max[1]).astype(samples_dtype)
         self.send_data(self.out_topic, RawData(TimestampChuckMessage(timestamp=message.timestamp, data=samples.tobytes("C")).model_dump()))
       except (queue.Empty, ValueError): pass
 
@@ -93,7 +93,7 @@ class AudioVolumeScalerTask(SyncTask):
       try:
         data = await self.in_topic.recv_data_control()
         if isinstance(data, TopicControlData): await self.out_topic.set_paused(data.paused)
-        else: self.message_queue.put(TimestampChuckMessage.model_validate(data.data))
+        else: self.message_queue.put((TimestampChuckMessage.model_validate(data.data), self.scale))
       except (ValidationError, ValueError): pass
 
 class AudioVolumeScalerTaskHost(TaskHost):
-- 
2.43.0


From 424bf60677e8a8b0bea46f3857db9337305bccef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:25 +0000
Subject: [PATCH 100/105] fix: video activity meters reported brighter pixels
 as large changes

---
 streamtasks/system/tasks/media/videoactivitymeter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/media/videoactivitymeter.py b/streamtasks/system/tasks/media/videoactivitymeter.py
index a451ea5..9ffb0f0 100644
--- a/streamtasks/system/tasks/media/videoactivitymeter.py
+++ b/streamtasks/system/tasks/media/videoactivitymeter.py
@@ -60,7 +60,7 @@ class VideoActivityMeterTask(SyncTask):
         message = self.message_queue.get(timeout=timeout)
         bitmap = video_buffer_to_ndarray(message.data, self.config.width, self.config.height)
         if last_bitmap is not None and last_bitmap.shape == bitmap.shape:
-          self.send_data(self.out_topic, RawData(NumberMessage(timestamp=message.timestamp, value=np.abs(last_bitmap - bitmap).flatten().mean()).model_dump()))
+          self.send_data(self.out_topic, RawData(NumberMessage(timestamp=message.timestamp, value=np.abs(last_bitmap.astype(np.int16) - bitmap).mean()).model_dump()))
         last_bitmap = bitmap
       except (queue.Empty, ValueError): pass
 
-- 
2.43.0


From 17f932862e554bbb4fb48945df05646b06639e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:57 +0000
Subject: [PATCH 101/105] fix: video mixers cut pictures and repeated them when
 they received invalid frames

---
 streamtasks/system/tasks/media/videomixer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/streamtasks/system/tasks/media/videomixer.py b/streamtasks/system/tasks/media/videomixer.py
index d97ab30..028160d 100644
--- a/streamtasks/system/tasks/media/videomixer.py
+++ b/streamtasks/system/tasks/media/videomixer.py
@@ -105,10 +105,12 @@ class VideoMixerTask(SyncTask):
         data = await track.topic.recv_data_control()
         if isinstance(data, TopicControlData): track.last_message = None
         else:
+          message = TimestampChuckMessage.model_validate(data.data)
+          if len(message.data) != self.config.width * self.config.height * 4: raise ValueError("Invalid frame size!")
           if last_frame_count == self.frame_count: self.submit_job()
-          track.last_message = TimestampChuckMessage.model_validate(data.data)
+          track.last_message = message
           last_frame_count = self.frame_count
-      except ValidationError: pass
+      except (ValidationError, ValueError): pass
 
   def submit_job(self):
     self.frame_count += 1
-- 
2.43.0


From 7424aa47c821f244354cc2235d46ee99fe5a5f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:57 +0000
Subject: [PATCH 102/105] fix: video mixers ignored their background color

---
 streamtasks/system/tasks/media/videomixer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/media/videomixer.py b/streamtasks/system/tasks/media/videomixer.py
index 028160d..904edc7 100644
--- a/streamtasks/system/tasks/media/videomixer.py
+++ b/streamtasks/system/tasks/media/videomixer.py
@@ -123,10 +123,11 @@ class VideoMixerTask(SyncTask):
 
   def run_sync(self):
     timeout = 2 / self.config.rate
+    background = self.config.bgcolor.tobytes() * (self.config.width * self.config.height)
     while not self.stop_event.is_set():
       try:
         job = self.job_queue.get(timeout=timeout)
-        result = merge_images([ frame for frame in job.frames ], self.config.alpha_front)
+        result = merge_images([ background, *job.frames ], self.config.alpha_front)
         self.send_data(self.out_topic, RawData(TimestampChuckMessage(timestamp=job.timestamp, data=result).model_dump()))
       except queue.Empty: pass
 
-- 
2.43.0


From 7aaad4d9980eb762ab9b288e8595fecad9f0b00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:17 +0000
Subject: [PATCH 103/105] fix: audio and video encoders and decoders ended when
 they received data of wrong size

---
 streamtasks/system/tasks/media/audiodecoder.py | 2 +-
 streamtasks/system/tasks/media/audioencoder.py | 2 +-
 streamtasks/system/tasks/media/videodecoder.py | 2 +-
 streamtasks/system/tasks/media/videoencoder.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/streamtasks/system/tasks/media/audiodecoder.py b/streamtasks/system/tasks/media/audiodecoder.py
index ec09aaa..41e723f 100644
--- a/streamtasks/system/tasks/media/audiodecoder.py
+++ b/streamtasks/system/tasks/media/audiodecoder.py
@@ -54,7 +54,7 @@ class AudioDecoderTask(Task):
             for frame in frames: # TODO: endianness
               if DEBUG_MEDIA(): ddebug_value("decoder dtime", float(frame.dtime))
               await self.out_topic.send(RawData(TimestampChuckMessage(timestamp=self.t0 + int(frame.dtime * 1000), data=frame.to_ndarray().tobytes("C")).model_dump()))
-          except ValidationError: pass
+          except (ValidationError, ValueError): pass
     finally:
       self.decoder.close()
 
diff --git a/streamtasks/system/tasks/media/audioencoder.py b/streamtasks/system/tasks/media/audioencoder.py
index ab220ad..07ed34f 100644
--- a/streamtasks/system/tasks/media/audioencoder.py
+++ b/streamtasks/system/tasks/media/audioencoder.py
@@ -69,7 +69,7 @@ class AudioEncoderTask(SyncTask):
         for packet in packets:
           self.send_data(self.out_topic, RawData(MediaMessage(timestamp=int(self.t0 + packet.dts * self.time_base * 1000), packet=packet).model_dump()))
         self.frame_data_queue.task_done()
-      except queue.Empty: pass
+      except (queue.Empty, ValueError): pass
 
 class AudioEncoderTaskHost(TaskHost):
   @property
diff --git a/streamtasks/system/tasks/media/videodecoder.py b/streamtasks/system/tasks/media/videodecoder.py
index b6528de..6b590dc 100644
--- a/streamtasks/system/tasks/media/videodecoder.py
+++ b/streamtasks/system/tasks/media/videodecoder.py
@@ -55,7 +55,7 @@ class VideoDecoderTask(Task):
             for frame in frames: # TODO: endianness
               bitmap = frame.convert(width=self.config.width, height=self.config.height, pixel_format=self.config.out_pixel_format).to_ndarray()
               await self.out_topic.send(RawData(TimestampChuckMessage(timestamp=self.t0 + int(frame.dtime * 1000), data=bitmap.tobytes("C")).model_dump()))
-          except ValidationError: pass
+          except (ValidationError, ValueError): pass
     finally:
       self.decoder.close()
 
diff --git a/streamtasks/system/tasks/media/videoencoder.py b/streamtasks/system/tasks/media/videoencoder.py
index 3e9fccb..14105b0 100644
--- a/streamtasks/system/tasks/media/videoencoder.py
+++ b/streamtasks/system/tasks/media/videoencoder.py
@@ -77,7 +77,7 @@ class VideoEncoderTask(SyncTask):
         for packet in packets:
           self.send_data(self.out_topic, RawData(MediaMessage(timestamp=int(self.t0 + packet.dts * self.time_base * 1000), packet=packet).model_dump()))
         self.frame_data_queue.task_done()
-      except queue.Empty: pass
+      except (queue.Empty, ValueError): pass
 
 class VideoEncoderTaskHost(TaskHost):
   @property
-- 
2.43.0


From f38c38755e34c732aad3af598d2a112a4918ce53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:57 +0000
Subject: [PATCH 104/105] fix: audio and video blocks took their time base from
 invalid data

---
 streamtasks/system/tasks/media/audiodecoder.py     | 2 +-
 streamtasks/system/tasks/media/audioencoder.py     | 2 +-
 streamtasks/system/tasks/media/audioresampler.py   | 2 +-
 streamtasks/system/tasks/media/videodecoder.py     | 2 +-
 streamtasks/system/tasks/media/videoencoder.py     | 2 +-
 streamtasks/system/tasks/media/videoreformatter.py | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/streamtasks/system/tasks/media/audiodecoder.py b/streamtasks/system/tasks/media/audiodecoder.py
index 41e723f..ea56801 100644
--- a/streamtasks/system/tasks/media/audiodecoder.py
+++ b/streamtasks/system/tasks/media/audiodecoder.py
@@ -48,8 +48,8 @@ class AudioDecoderTask(Task):
           try:
             data = await self.in_topic.recv_data()
             message = MediaMessage.model_validate(data.data)
-            if self.t0 is None: self.t0 = message.timestamp - int(message.packet.dts * self.time_base * 1000)
             frames: list[AudioFrame] = await self.decoder.decode(message.packet)
+            if self.t0 is None: self.t0 = message.timestamp - int(message.packet.dts * self.time_base * 1000)
             frames = await self.resampler.reformat_all(frames)
             for frame in frames: # TODO: endianness
               if DEBUG_MEDIA(): ddebug_value("decoder dtime", float(frame.dtime))
diff --git a/streamtasks/system/tasks/media/audioencoder.py b/streamtasks/system/tasks/media/audioencoder.py
index 07ed34f..684b1fc 100644
--- a/streamtasks/system/tasks/media/audioencoder.py
+++ b/streamtasks/system/tasks/media/audioencoder.py
@@ -62,8 +62,8 @@ class AudioEncoderTask(SyncTask):
     while not self.stop_event.is_set():
       try:
         message = self.frame_data_queue.get(timeout=timeout)
-        if self.t0 is None: self.t0 = message.timestamp
         frame = AudioFrame.from_buffer(message.data, self.config.in_sample_format, self.config.channels, self.config.rate)
+        if self.t0 is None: self.t0 = message.timestamp
         frame.set_ts(Fraction(message.timestamp - self.t0, 1000), self.time_base)
         packets = self.encoder.encode_sync(frame)
         for packet in packets:
diff --git a/streamtasks/system/tasks/media/audioresampler.py b/streamtasks/system/tasks/media/audioresampler.py
index 2f2f45a..6c18cd7 100644
--- a/streamtasks/system/tasks/media/audioresampler.py
+++ b/streamtasks/system/tasks/media/audioresampler.py
@@ -44,8 +44,8 @@ class AudioResamplerTask(Task):
           if isinstance(data, TopicControlData): await self.out_topic.set_paused(data.paused)
           else:
             message = TimestampChuckMessage.model_validate(data.data)
-            if t0 is None: t0 = message.timestamp
             frame = AudioFrame.from_buffer(message.data, self.config.in_sample_format, self.config.in_channels, self.config.in_rate)
+            if t0 is None: t0 = message.timestamp
             frame.set_ts(Fraction(message.timestamp - t0, 1000), Fraction(1, self.config.in_rate))
             for nframe in await self.resampler.reformat(frame):
               await self.out_topic.send(RawData(TimestampChuckMessage(timestamp=int(nframe.dtime * 1000) + t0, data=nframe.to_bytes()).model_dump()))
diff --git a/streamtasks/system/tasks/media/videodecoder.py b/streamtasks/system/tasks/media/videodecoder.py
index 6b590dc..6943c63 100644
--- a/streamtasks/system/tasks/media/videodecoder.py
+++ b/streamtasks/system/tasks/media/videodecoder.py
@@ -50,8 +50,8 @@ class VideoDecoderTask(Task):
           try:
             data = await self.in_topic.recv_data()
             message = MediaMessage.model_validate(data.data)
-            if self.t0 is None: self.t0 = message.timestamp - int(message.packet.dts * self.time_base * 1000)
             frames: list[VideoFrame] = await self.decoder.decode(message.packet)
+            if self.t0 is None: self.t0 = message.timestamp - int(message.packet.dts * self.time_base * 1000)
             for frame in frames: # TODO: endianness
               bitmap = frame.convert(width=self.config.width, height=self.config.height, pixel_format=self.config.out_pixel_format).to_ndarray()
               await self.out_topic.send(RawData(TimestampChuckMessage(timestamp=self.t0 + int(frame.dtime * 1000), data=bitmap.tobytes("C")).model_dump()))
diff --git a/streamtasks/system/tasks/media/videoencoder.py b/streamtasks/system/tasks/media/videoencoder.py
index 14105b0..2caaf7e 100644
--- a/streamtasks/system/tasks/media/videoencoder.py
+++ b/streamtasks/system/tasks/media/videoencoder.py
@@ -69,9 +69,9 @@ class VideoEncoderTask(SyncTask):
     while not self.stop_event.is_set():
       try:
         message = self.frame_data_queue.get(timeout=timeout)
-        if self.t0 is None: self.t0 = message.timestamp
         bitmap = video_buffer_to_ndarray(message.data, self.config.width, self.config.height)
         frame = VideoFrame.from_ndarray(bitmap, self.config.in_pixel_format)
+        if self.t0 is None: self.t0 = message.timestamp
         frame.set_ts(Fraction(message.timestamp - self.t0, 1000), self.time_base)
         packets = self.encoder.encode_sync(frame)
         for packet in packets:
diff --git a/streamtasks/system/tasks/media/videoreformatter.py b/streamtasks/system/tasks/media/videoreformatter.py
index fb7aa7c..6ecdeb0 100644
--- a/streamtasks/system/tasks/media/videoreformatter.py
+++ b/streamtasks/system/tasks/media/videoreformatter.py
@@ -46,8 +46,8 @@ class VideoReformatterTask(Task):
           if isinstance(data, TopicControlData): await self.out_topic.set_paused(data.paused)
           else:
             message = TimestampChuckMessage.model_validate(data.data)
-            if t0 is None: t0 = message.timestamp
             frame = VideoFrame.from_buffer(message.data, self.config.in_width, self.config.in_height, self.config.in_pixel_format)
+            if t0 is None: t0 = message.timestamp
             frame.set_ts(Fraction(message.timestamp - t0, 1000), Fraction(1, self.config.in_rate))
             for nframe in await self.reformatter.reformat(frame):
               await self.out_topic.send(RawData(TimestampChuckMessage(timestamp=int(nframe.dtime * 1000) + t0, data=nframe.to_bytes()).model_dump()))
-- 
2.43.0


From cf617ce2353cf7b87d617d21ab6bbee8f80f38d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:07 +0000
Subject: [PATCH 105/105] fix: stopping a decoder while it decoded crashed the
 process

---
 streamtasks/media/codec.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/streamtasks/media/codec.py b/streamtasks/media/codec.py
index ef9bfc3..dc58405 100644
--- a/streamtasks/media/codec.py
+++ b/streamtasks/media/codec.py
@@ -46,6 +46,14 @@ class Frame(ABC, Generic[T]):
 
 F = TypeVar('F', bound=Frame)
 
+async def run_codec(func, *args):
+  fut = asyncio.get_running_loop().run_in_executor(None, func, *args)
+  try: return await asyncio.shield(fut)
+  finally:
+    while not fut.done(): # the codec must not be closed while it is used
+      try: await asyncio.wait([fut])
+      except asyncio.CancelledError: pass
+
 
 class Encoder(Generic[F]):
   def __init__(self, codec_info: 'CodecInfo[F]'):
@@ -56,12 +64,10 @@ class Encoder(Generic[F]):
   def __del__(self): self.close()
 
   async def encode(self, frame: F) -> list[MediaPacket]:
-    loop = asyncio.get_running_loop()
-    return await loop.run_in_executor(None, self.encode_sync, frame)
+    return await run_codec(self.encode_sync, frame)
 
   async def flush(self) -> list[MediaPacket]:
-    loop = asyncio.get_running_loop()
-    return await loop.run_in_executor(None, self.flush_sync)
+    return await run_codec(self.flush_sync)
 
   def encode_sync(self, frame: F):
     if frame.ptime is None: raise ValueError("Frame must have a ptime before encoding!")
@@ -80,14 +86,12 @@ class Decoder(Generic[F]):
     self.time_base = codec_info.time_base
 
   async def decode(self, packet: MediaPacket) -> list[F]:
-    loop = asyncio.get_running_loop()
     av_packet = packet.to_av_packet(self.time_base)
-    frames = await loop.run_in_executor(None, self._decode, av_packet)
+    frames = await run_codec(self._decode, av_packet)
     return [ Frame.from_av_frame(frame) for frame in frames ]
 
   async def flush(self):
-    loop = asyncio.get_running_loop()
-    frames = await loop.run_in_executor(None, self._decode, None)
+    frames = await run_codec(self._decode, None)
     return [ Frame.from_av_frame(frame) for frame in frames ]
 
   def close(self): self.codec_context.close()
-- 
2.43.0

