PRE = '''
import asyncio, sys, os
from streamtasks.net import Switch, create_queue_connection
from streamtasks.net.messages import *
from streamtasks.net.serialization import RawData
from streamtasks.client import Client
async def rest(n=0.02): await asyncio.sleep(n)
def check(c, what):
  if not c: print("FAILED:", what); sys.stdout.flush(); os._exit(1)
async def client_of(sw, addr=None):
  a, b = create_queue_connection(); await sw.add_link(a)
  c = Client(b); c.start()
  if addr is not None: await c.set_address(addr)
  return c
class Net:
  """the network side of one client, by hand"""
  def __init__(self):
    a, self.link = create_queue_connection()
    self.client = Client(a); self.client.start()
    self.add, self.rem = [], []
    self.t = asyncio.create_task(self.run())
  async def run(self):
    while True:
      m = await self.link.recv()
      if isinstance(m, InTopicsChangedMessage): self.add += m.add; self.rem += m.remove
  async def data(self, t, d): await self.link.send(TopicDataMessage(t, RawData(d))); await rest()
  async def ctl(self, t, v): await self.link.send(TopicControlMessage(t, v)); await rest()
'''
def D(body): return PRE + "\nasync def main():\n" + "\n".join("  " + l for l in body.strip("\n").splitlines()) + "\n  os._exit(0)\nasync def guarded():\n  try: await asyncio.wait_for(main(), 60)\n  except BaseException as e: check(False, repr(e))\nasyncio.run(guarded())\n"

seed("C01-registered-twice", "C01", [("streamtasks/client/topic.py", "    if self._registered == registered: return\n    await self._set_registered(registered)\n", "    if not registered and not self._registered: return\n    await self._set_registered(registered)\n")],
     "a handle that is registered again while it is registered, then unregistered once", "the network keeps a subscription nobody has any more", D('''
n = Net()
async with n.client.in_topic(1) as h:
  await h.set_registered(True); await h.set_registered(True); await rest()
  check(n.add == [1], "one subscription")
  await h.set_registered(False); await rest()
  check(n.rem == [1], "the subscription ended with its only user")
'''))
seed("C02-cancelled-waiter", "C02", [("streamtasks/utils.py", "      if not fut.done(): fut.set_result(None)\n", "      fut.set_result(None)\n")],
     "a wait for a pause change that was cancelled before the change", "the next reader of the handle fails and other waiters stay", D('''
n = Net()
async with n.client.in_topic(1) as h:
  await h.set_registered(True); await rest()
  w1, w2 = asyncio.create_task(h.wait_paused(True)), asyncio.create_task(h.wait_paused(True)); await rest()
  w1.cancel(); await rest()
  await n.ctl(1, True)
  r = asyncio.create_task(h.recv_data_control()); await rest()
  check(r.done() and r.exception() is None and r.result().paused, "the change is read")
  check(w2.done(), "the other waiter is released")
  check(h.is_paused, "the handle is paused")
'''))
seed("C02-add-and-remove", "C02", [("streamtasks/client/topic.py", "      if self._topic in message.remove: self._put_msg(_OutTopicAction.SET_REQUESTED, False)", "      elif self._topic in message.remove and len(message.add) == 0: self._put_msg(_OutTopicAction.SET_REQUESTED, False)")],
     "one message of the network that ends the demand for one topic and starts it for another", "the handle still says requested", D('''
n = Net()
async with n.client.out_topic(1) as h, n.client.out_topic(2) as g:
  await h.set_registered(True); await g.set_registered(True); await rest()
  await n.link.send(InTopicsChangedMessage({1}, set())); await rest()
  check(h.is_requested and not g.is_requested, "topic 1 is wanted")
  await n.link.send(InTopicsChangedMessage({2}, {1})); await rest()
  check(g.is_requested, "topic 2 is wanted")
  check(not h.is_requested, "topic 1 is no longer wanted")
'''))
seed("C03-error-escapes", "C03", [("streamtasks/client/fetch.py", "          except BaseException as e:\n            if not fr.response_sent:", "          except (Exception, TimeoutError) as e:\n            if not fr.response_sent:")],
     "a handler that passes on the error of a request it made itself (no Exception, a BaseException)", "the server stops: that request and all later ones stay without an answer", D('''
from streamtasks.client.fetch import FetchServer, FetchError
sw = Switch(); s, r = await client_of(sw, 1), await client_of(sw, 2)
srv = FetchServer(s)
@srv.route("inner")
async def _(req): await req.respond_error(["not_found", "nothing"])
@srv.route("outer")
async def _(req): raise FetchError(["not_found", "nothing"])
@srv.route("echo")
async def _(req): await req.respond(req.body)
t = asyncio.create_task(srv.run()); await rest()
async def ask(d, b):
  try: return await asyncio.wait_for(r.fetch(1, d, b), 3)
  except FetchError as e: return ("error", e.body[0])
check(await ask("echo", 1) == 1, "answer")
check(await ask("inner", 1) == ("error", "not_found"), "error answer")
check((await ask("outer", 1))[0] == "error", "a failing handler is answered with an error")
check(await ask("echo", 2) == 2, "later requests are answered")
'''))
seed("C04-other-receiver-stops", "C04", [("streamtasks/client/broadcast.py", "    await self._client.unregister_in_topics(self._topics_ns_map.keys())", "    await self._client.unregister_in_topics(self._topics_ns_map.keys(), force=True)")],
     "two receivers of one namespace on one client, one of which leaves", "the one that stays gets nothing any more", D('''
from streamtasks.services.discovery import DiscoveryWorker
from streamtasks.client.broadcast import BroadcastingServer, BroadcastReceiver
d = DiscoveryWorker(); dt = asyncio.create_task(d.run()); await rest(0.1)
s, c = await client_of(d.switch, 20), await client_of(d.switch, 21)
srv = BroadcastingServer(s); t = asyncio.create_task(srv.run()); await rest()
a, b = BroadcastReceiver(c, ["x"], 20), BroadcastReceiver(c, ["x", "y"], 20)
await a.start_recv(); await b.start_recv(); await rest()
await srv.broadcast("x", RawData(1)); await rest()
check((await asyncio.wait_for(a.get(), 2))[1].data == 1 and (await asyncio.wait_for(b.get(), 2))[1].data == 1, "both get it")
await b.stop_recv(); await rest()
await srv.broadcast("x", RawData(2)); await rest()
check((await asyncio.wait_for(a.get(), 2))[1].data == 2, "the remaining one gets it")
'''))
seed("C05-later-one-blocks", "C05", [("streamtasks/client/topic.py", "if tid != topic_id and timestamp == min_timestamp and tid not in", "if tid != topic_id and timestamp >= min_timestamp and tid not in")],
     "a message of the topic with the higher priority is held back because it is later, when one of a lower priority arrives that is due", "both wait for each other for ever", D('''
from streamtasks.client.topic import PrioritizedSequentialInTopicSynchronizer
n = Net(); y = PrioritizedSequentialInTopicSynchronizer(); y.set_priority(1, 1)
h = {t: n.client.sync_in_topic(t, y) for t in (1, 2)}
for x in h.values(): await x.start(); await x.set_registered(True)
await rest()
get = lambda t: asyncio.create_task(h[t].recv_data())
async def put(t, ts): await n.data(t, {"timestamp": ts})
g = {t: get(t) for t in h}; await rest()
for t in h: await put(t, 0)
for t in h: await rest(); check(g[t].done(), "the first ones"); g[t] = get(t)
await rest()
await put(1, 7); check(not g[1].done(), "later than what 2 has reached")
await put(2, 5); check(g[2].done(), "due")
check(not g[1].done(), "2 may still bring earlier ones"); g[2] = get(2); await rest()
await put(2, 8); check(g[1].done() and not g[2].done(), "now 1 is due")
'''))
seed("D01-large-count", "D01", [("streamtasks/services/discovery.py", "    self._topics_counter += count\n", "    self._topics_counter += min(count, 100)\n")],
     "one request for more than 100 topic ids, then another request", "ids are handed out twice", D('''
from streamtasks.services.discovery import DiscoveryWorker
d = DiscoveryWorker(); dt = asyncio.create_task(d.run()); await rest(0.1)
c, e = await client_of(d.switch, 501), await client_of(d.switch, 502)
ids = []
for who, n in ((c, 3), (e, 150), (c, 2), (e, 40), (c, 101), (c, 1)):
  r = list(await asyncio.wait_for(who.request_topic_ids(n), 5)); check(len(set(r)) == n, "as many as asked for"); ids += r
check(len(set(ids)) == len(ids), "never twice")
'''))
seed("D02-stale-first", "D02", [("streamtasks/services/discovery.py", "      self._address_map[request.address_name] = request.address\n", "      self._address_map.setdefault(request.address_name, request.address)\n")],
     "a name that is registered again with another address without being removed in between, then resolved by a client that has not resolved it before", "the client gets the old address", D('''
from streamtasks.services.discovery import DiscoveryWorker
from streamtasks.client.discovery import DiscoveryConstants
reg = lambda c, n, a: c.fetch(0, DiscoveryConstants.FD_REGISTER_ADDRESS_NAME, {"address_name": n, "address": a})
d = DiscoveryWorker(); dt = asyncio.create_task(d.run()); await rest(0.1)
c, e, f = [await client_of(d.switch, a) for a in (501, 502, 503)]
await reg(c, "name", 501)
check(await e.resolve_address_name("name") == 501, "registered")
await reg(c, "name", 502)
check(await f.resolve_address_name("name") == 502, "the current registration")
'''))
seed("D03-id-again", "D03", [("streamtasks/services/discovery.py", "        self._topic_spaces.pop(request.id)\n", "        self._topic_spaces.pop(request.id)\n        if len(self._topic_spaces) == 0: self._topic_space_id_counter = 0\n")],
     "the last topic space is deleted and another one is created", "the deleted space is known again, with the ids of another one", D('''
from streamtasks.services.discovery import DiscoveryWorker
from streamtasks.client.discovery import register_topic_space, delete_topic_space, get_topic_space_translation
from streamtasks.client.fetch import FetchError
d = DiscoveryWorker(); dt = asyncio.create_task(d.run()); await rest(0.1)
c = await client_of(d.switch, 501)
a, m = await register_topic_space(c, [1, 2]); check(len(set(dict(m).values())) == 2, "distinct")
await delete_topic_space(c, a)
b, m2 = await register_topic_space(c, [1, 3])
check(await get_topic_space_translation(c, b, 1) == dict(m2)[1], "the new one translates")
try: r = await get_topic_space_translation(c, a, 1)
except FetchError: r = None
check(r is None, "the deleted one is unknown")
'''))
