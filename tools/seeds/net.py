NET = "streamtasks/net/__init__.py"
PRE = '''
import asyncio, sys
from streamtasks.net import Switch, Link, TopicRemappingLink, create_queue_connection, ConnectionClosedError
from streamtasks.net.messages import *
from streamtasks.net.serialization import RawData
class End:
  """an end point: records what it receives"""
  def __init__(self, link): self.link, self.data, self.addr, self.req, self.known, self.kaddr, self.ctl = link, [], [], set(), {}, {}, []; self.t = asyncio.create_task(self.run())
  async def run(self):
    try:
      while True:
        m = await self.link.recv()
        if isinstance(m, TopicDataMessage): self.data.append((m.topic, m.data.data))
        elif isinstance(m, TopicControlMessage): self.ctl.append((m.topic, m.paused))
        elif isinstance(m, AddressedMessage): self.addr.append((m.address, m.port, m.data.data))
        elif isinstance(m, InTopicsChangedMessage): self.req = (self.req | m.add) - m.remove
        elif isinstance(m, OutTopicsChangedRecvMessage):
          for p in m.remove: self.known.pop(p.id, None)
          for p in m.add: self.known[p.id] = p.cost
        elif isinstance(m, AddressesChangedRecvMessage):
          for p in m.remove: self.kaddr.pop(p.id, None)
          for p in m.add: self.kaddr[p.id] = p.cost
    except ConnectionClosedError: pass
  async def prov(self, t): await self.link.send(OutTopicsChangedMessage({PricedId(t, 0)}, set())); await rest()
  async def unprov(self, t): await self.link.send(OutTopicsChangedMessage(set(), {t})); await rest()
  async def sub(self, t): await self.link.send(InTopicsChangedMessage({t}, set())); await rest()
  async def unsub(self, t): await self.link.send(InTopicsChangedMessage(set(), {t})); await rest()
  async def pub(self, t, d): await self.link.send(TopicDataMessage(t, RawData(d))); await rest()
  async def pause(self, t, v): await self.link.send(TopicControlMessage(t, v)); await rest()
  async def addr_(self, a): await self.link.send(AddressesChangedMessage({PricedId(a, 0)}, set())); await rest()
  async def send(self, a, d): await self.link.send(AddressedMessage(a, 1, RawData(d))); await rest()
async def rest(): await asyncio.sleep(0.02)
async def end(sw, cost=1):
  a, b = create_queue_connection()
  a._cost = b._cost = cost
  await sw.add_link(a)
  e = End(b); await rest()
  return e
def check(c, what):
  if not c: print("FAILED:", what); sys.exit(1)
'''
def D(body): return PRE + "\nasync def main():\n" + "\n".join("  " + l for l in body.strip("\n").splitlines()) + "\n  import os; os._exit(0)\nasyncio.run(main())\n"

seed("N02-saturating-count", "N02", [("streamtasks/utils.py", "      self._map[id] = val + 1\n", "      self._map[id] = min(val + 1, 2)\n")],
     "three end points of one switch subscribed to the same topic, then two of them unsubscribe", "the provider stops being asked while a subscriber remains", D('''
s = Switch(); p, a, b, c = [await end(s) for _ in range(4)]
await p.prov(1)
for x in (a, b, c): await x.sub(1)
await a.unsub(1); await b.unsub(1)
check(1 in p.req, "the provider is still asked")
await p.pub(1, "x"); check(c.data == [(1, "x")], "the remaining subscriber gets data")
await c.unsub(1); check(1 not in p.req, "nobody asks any more")
'''))
seed("N03-farther-holder", "N03", [(NET, '''    found_conn = next(( conn for conn in self.link_manager.links if conn.addresses.get(message.address, -1) == address_cost ), None)
''', '''    found_conn = next(( conn for conn in reversed(self.link_manager.links) if conn.addresses.get(message.address, -1) >= address_cost ), None)
''')],
     "two holders of one address at different distances"  , "a message goes to the holder farther away", D('''
s = Switch(); a, b, c = await end(s, 2), await end(s, 6), await end(s)
await a.addr_(7); await b.addr_(7)
await c.send(7, "hi")
check(len(a.addr) == 1 and len(b.addr) == 0, "the nearest holder receives it")
'''))
seed("N04-first-cost", "N04", [("streamtasks/net/helpers.py", "min_cost = min(inner.keys())", "min_cost = next(iter(inner))")],
     "three providers at different costs, the cheapest withdraws, the most expensive one came first", "the cost of the topic is not that of the cheapest remaining path", D('''
s = Switch(); a, b, c, d = await end(s, 9), await end(s, 5), await end(s, 2), await end(s, 1)
for x in (a, b, c): await x.prov(1)
check(d.known == {1: 3}, d.known)
await c.unprov(1); check(d.known == {1: 6}, d.known)
'''))
seed("N05-first-subscriber-only", "N05", [(NET, "for control_message in [ self.stream_controls[topic].to_message(topic) for topic in message.add if topic in self.stream_controls ]:", "for control_message in [ self.stream_controls[topic].to_message(topic) for topic in final_add if topic in self.stream_controls ]:")],
     "a second subscriber on the same switch subscribes after the pause was announced", "the second subscriber never learns that the topic is paused", D('''
s = Switch(); p, a, b = [await end(s) for _ in range(3)]
await p.prov(1); await a.sub(1); await p.pause(1, True)
await b.sub(1)
check(b.ctl[-1:] == [(1, True)], "the late subscriber knows the pause")
'''))
seed("N06-falsy-id", "N06", [(NET, "      message = TopicDataMessage(topic_id_map.get(message.topic, message.topic), message.data)", "      message = TopicDataMessage(topic_id_map.get(message.topic) or message.topic, message.data)")],
     "a renumbering to or from topic number 0", "data of a topic renumbered to 0 arrives under its old number", D('''
s = Switch(); p = await end(s)
a, b = create_queue_connection(); await s.add_link(a); e = End(TopicRemappingLink(b, {0: 5})); await rest()
await p.prov(5); await e.sub(0); await p.pub(5, "x")
check(e.data == [(0, "x")], e.data)
'''))
seed("N07-cost-update-lost", "N07", [(NET, "    if len(removed_topics) > 0 or len(updated_topics) > 0:\n", "    if len(removed_topics) > 0:\n")],
     "the cheaper of two providers of a topic loses its link", "the others keep believing in the lost, cheaper path", D('''
s = Switch(); a, b, c = await end(s, 1), await end(s, 5), await end(s, 1)
await a.prov(1); await b.prov(1); check(c.known == {1: 2}, c.known)
a.link.close(); await rest(); await rest()
check(c.known == {1: 6}, c.known)
'''))
seed("N01-stale-request-flag", "N01", [(NET, "      self.in_topics = self.in_topics.union(message.add).difference(message.remove)", "      self.in_topics = self.in_topics.difference(message.remove).union(message.add) if len(message.remove) == 0 else self.in_topics.difference(message.remove)")],
     "one request message that both adds and removes topics", "a subscription made in the same message as an unsubscription is lost", D('''
s = Switch(); p, a = await end(s), await end(s)
await p.prov(1); await p.prov(2); await a.sub(1)
await a.link.send(InTopicsChangedMessage({2}, {1})); await rest()
await p.pub(2, "x")
check(a.data == [(2, "x")], a.data)
'''))
CON = "streamtasks/connection.py"
CPRE = '''
import asyncio, sys, os, struct, tempfile, msgpack
from streamtasks.connection import *
from streamtasks.connection import _get_version_specifier
from streamtasks.net import ConnectionClosedError, create_queue_connection
from streamtasks.net.messages import *
from streamtasks.net.serialization import RawData, serialize_message, deserialize_message
frame = lambda b: b"\\xb8\\x23\\xa0\\x6f" + struct.pack("<L", len(b)) + b
class W:
  def __init__(self): self.b = bytearray()
  def write(self, d): self.b += d
  async def drain(self): pass
  def close(self): pass
def check(c, what):
  if not c: print("FAILED:", what); sys.stdout.flush(); os._exit(1)
'''
def CD(body): return CPRE + "\nasync def main():\n" + "\n".join("  " + l for l in body.strip("\n").splitlines()) + "\n  os._exit(0)\nasyncio.run(asyncio.wait_for(main(), 60))\n"
seed("N08-short-read", "N08", [(CON, "    return await self._reader.readexactly(data_len)\n", "    return await self._reader.read(data_len)\n")],
     "the body of a message arrives in more than one chunk", "a message is cut short", CD('''
r = asyncio.StreamReader(); c = RawStreamConnection(r, W())
f = frame(serialize_message(TopicDataMessage(3, RawData({"v": "x" * 500}))))
r.feed_data(f[:100])
t = asyncio.create_task(c.recv()); await asyncio.sleep(0.05)
r.feed_data(f[100:])
m = await t
check(m == f[8:], "the message is complete")
'''))
seed("N09-missing-version", "N09", [(CON, 'accepted = client_data.get("version", None) == _get_version_specifier()', 'accepted = client_data.get("version", _get_version_specifier()) == _get_version_specifier()')],
     "a peer that does not state a version", "a peer without a matching version gets a link", CD('''
p = tempfile.mktemp(".sock"); s = create_server(f"unix://{p}?auth=K"); t = asyncio.create_task(s.run()); await s.wait_running(); await asyncio.sleep(0.05)
r, w = await asyncio.open_unix_connection(p)
w.write(frame(msgpack.packb({"auth": "K"})))
h = await r.readexactly(8); d = msgpack.unpackb(await r.readexactly(struct.unpack("<L", h[4:])[0]))
await asyncio.sleep(0.05)
os.unlink(p)
check(d["accepted"] is False and s.connection_count == 0, "refused")
'''))
seed("N10-websocket-not-held", "N10", [(CON, "      await close_event.wait()\n", "      await asyncio.wait([asyncio.ensure_future(close_event.wait())], timeout=30)\n")],
     "a websocket connection that lives for more than half a minute", "the server drops live websocket peers after 30 seconds", CD('''
import socket
s = socket.socket(); s.bind(("127.0.0.1", 0)); port = s.getsockname()[1]; s.close()
srv = create_server(f"ws://127.0.0.1:{port}"); t = asyncio.create_task(srv.run()); await srv.wait_running(); await asyncio.sleep(0.3)
link = await connect(f"ws://127.0.0.1:{port}")
async def rd():
  try:
    while True: await link.recv()
  except ConnectionClosedError: link.close()
rt = asyncio.create_task(rd())
await asyncio.sleep(33)
check(not link.closed and srv.connection_count == 1, "still connected")
'''))
