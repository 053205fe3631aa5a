"""Broadcasts through a real network with discovery."""
import os, sys, random, asyncio
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.driver import main
from vlib.vloop import run, idle, attempt
from streamtasks.net import Switch, create_queue_connection
from streamtasks.client import Client
from streamtasks.client.broadcast import BroadcastingServer, BroadcastReceiver
from streamtasks.client.receiver import TopicsReceiver
from streamtasks.net.messages import AddressedMessage, TopicDataMessage, OutTopicsChangedRecvMessage
from streamtasks.net.serialization import RawData
from streamtasks.services.discovery import DiscoveryWorker

NS = {1: [1], 2: [1, 2], 3: [2, 3], 4: [1, 2, 3]}

def scenario(sc):
  rnd = random.Random(sc["seed"])
  ev = []
  async def go():
    disc = DiscoveryWorker()
    dt = asyncio.ensure_future(disc.run())
    await idle(2)
    sw = disc.switch
    async def client(addr):
      a, b = create_queue_connection(raw=rnd.random() < 0.4)
      await sw.add_link(a)
      c = Client(b); c.start()
      await c.set_address(addr)
      await TopicsReceiver(c, []).start_recv()
      return c
    S = await client(20)
    C = {i: await client(20 + i) for i in (1, 2, 3)}
    C[4] = C[1]
    # a plain observer of what the network offers
    a, b = create_queue_connection()
    await sw.add_link(a)
    offered = set()
    async def watch():
      while True:
        m = await b.recv()
        if isinstance(m, OutTopicsChangedRecvMessage): offered.update(p.id for p in m.add); offered.difference_update(p.id for p in m.remove)
    asyncio.ensure_future(watch())
    name = rnd.choice([str, lambda n: "a/" + "x" * n, lambda n: ["", "ü", "y"][n - 1]])
    server = BroadcastingServer(S)
    task = asyncio.ensure_future(server.run())
    await idle(2)
    base = set(offered)
    rs = {r: BroadcastReceiver(C[r], [name(n) for n in NS[r]], rnd.choice([20, (20, 102)])) for r in NS}
    starting = {}
    for o in sc["ops"]:
      k, started, item = o["k"], [], []
      try:
        if k == "start":
          for r in o["rs"]: starting[r] = asyncio.ensure_future(rs[r].start_recv())
        elif k == "stop": await rs[o["r"]].stop_recv()
        elif k == "giveup":
          t = starting.pop(o["r"]); t.cancel()
          try: await t
          except asyncio.CancelledError: pass
        elif k == "pub":
          for ns, n in o["xs"]: await server.broadcast(name(ns), RawData({"n": n}))
        elif k == "read":
          r = await attempt(rs[o["r"]].get())
          if r.state == "ok": item = [next(i for i in (1, 2, 3) if name(i) == r.value[0]), r.value[1].data["n"]]
          elif r.state == "pending": r.task.cancel()
          else: raise Exception(r.exc)
        elif k == "down":
          task.cancel()
          try: await task
          except asyncio.CancelledError: pass
        elif k == "up": task = asyncio.ensure_future(server.run())
        elif k == "junk":
          c = C[rnd.choice([1, 2, 3])]
          if o["j"] == 1: await c._link.send(AddressedMessage(20, 102, RawData(b"\xc1")))
          elif o["j"] == 2: await c._link.send(AddressedMessage(20, 102, RawData({"return_address": 20, "return_port": 5, "descriptor": "gettopics", "body": 5})))
          elif o["j"] == 3: await c._link.send(AddressedMessage(20, 102, RawData({"return_address": 20, "return_port": 5, "descriptor": "gettopics", "body": [1, None]})))
          else: await c._link.send(AddressedMessage(20, 102, RawData({"return_address": 20, "return_port": 5, "descriptor": "gettopics", "body": []})))
      except Exception as e:
        ev.append({"k": "opfail", "op": o, "why": f"{type(e).__name__}: {e}"[:300]}); return
      await idle(2)
      for r, t in list(starting.items()):
        if t.done(): t.result(); started.append(r); del starting[r]
      ev.append({**o, "obs": {"started": started, "item": item, "topics": len(offered - base)}})
  _, err = run(go, wall=20)
  if err: ev.append({"k": "opfail", "why": err})
  return ev

if __name__ == "__main__": main(scenario)
