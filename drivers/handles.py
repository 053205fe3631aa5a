"""Users of one client against a hand-driven network."""
import os, sys, random, asyncio
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.driver import main
from vlib.vloop import run, idle, attempt
from streamtasks.net import Link, create_queue_connection
from streamtasks.client import Client
from streamtasks.client.receiver import TopicsReceiver
from streamtasks.net.messages import *
from streamtasks.net.serialization import RawData

TOPICS = {1: [1], 2: [1], 6: [1], 7: [1], 3: [2], 8: [2], 5: [1], 4: [1, 2], 9: [1, 2], 10: [1, 2]}
INH, OUTH, RCV = (1, 2, 3), (6, 7, 8), (4, 5)


class SlowLink(Link):
  """sends and receives that suspend for a while"""
  def __init__(self, inner, rnd):
    super().__init__()
    self.inner, self.rnd = inner, rnd
  async def _send(self, m):
    await self.inner.send(m)
    for _ in range(self.rnd.randrange(3)): await asyncio.sleep(0)
  async def _recv(self): return await self.inner.recv()


def scenario(sc):
  rnd = random.Random(sc["seed"])
  off = sc.get("off", 0)
  ev, errors = [], []
  async def go():
    a, b = create_queue_connection(raw=rnd.random() < 0.3)
    client = Client(SlowLink(a, rnd) if sc.get("slow") else a)
    client.start()
    asyncio.get_running_loop().set_exception_handler(lambda l, c: errors.append(str(c.get("exception") or c.get("message"))))
    out = {"add": [], "rem": [], "padd": [], "prem": [], "data": [], "ctl": []}
    async def net():
      while True:
        m = await b.recv()
        if isinstance(m, InTopicsChangedMessage): out["add"] += [t - off for t in m.add]; out["rem"] += [t - off for t in m.remove]
        elif isinstance(m, OutTopicsChangedRecvMessage): out["padd"] += [p.id - off for p in m.add]; out["prem"] += [p.id - off for p in m.remove]
        elif isinstance(m, TopicDataMessage): out["data"].append([m.topic - off, m.data.data["n"]])
        elif isinstance(m, TopicControlMessage): out["ctl"].append([m.topic - off, int(m.paused)])
    nt = asyncio.ensure_future(net())
    def make(u):
      ts = [t + off for t in TOPICS[u]]
      if u in INH: return client.in_topic(ts[0])
      if u in OUTH: return client.out_topic(ts[0])
      if u in RCV: return TopicsReceiver(client, ts)
      return client.in_topics_context(ts) if u == 9 else client.out_topics_context(ts)
    users = {u: make(u) for u in TOPICS}
    regs, waits, reported = {}, {}, set()
    count = {u: 0 for u in TOPICS}
    async def start(u):
      if u in RCV: await users[u].start_recv()
      else: await (users[u].start() if rnd.random() < 0.5 else users[u].__aenter__())
    async def stop(u):
      if u in RCV: await users[u].stop_recv()
      else: await (users[u].stop() if rnd.random() < 0.5 else users[u].__aexit__(None, None, None))
    for o in sc["ops"]:
      k, item = o["k"], []
      try:
        u = o.get("u")
        if k == "start": await start(u)
        elif k == "stop": await stop(u)
        elif k == "swap":
          ts = [asyncio.ensure_future(stop(u)), asyncio.ensure_future(start(o["u2"]))]
          if rnd.random() < 0.3: await asyncio.sleep(0)
          await asyncio.gather(*ts)
        elif k == "reg": await users[u].set_registered(True)
        elif k == "unreg": await users[u].set_registered(False)
        elif k == "enter": await users[u].__aenter__()
        elif k == "exit": await users[u].__aexit__(None, None, None)
        elif k == "data": await b.send(TopicDataMessage(o["t"] + off, RawData({"n": o["n"]})))
        elif k == "ctl": await b.send(TopicControlMessage(o["t"] + off, bool(o["v"])))
        elif k == "req": await b.send(InTopicsChangedMessage({o["t"] + off} if o["v"] else set(), set() if o["v"] else {o["t"] + off}))
        elif k == "flip":
          on, of = [{i + 1 + off for i, v in enumerate(o["ts"]) if v == x} for x in (1, 0)]
          await b.send(InTopicsChangedMessage(on, of))
        elif k == "read":
          r = await attempt(users[u].get() if u in RCV else users[u].recv_data_control())
          if r.state == "ok":
            t, d = r.value if u in RCV else (TOPICS[u][0] + off, r.value)
            item = ["c", t - off, int(d.paused)] if isinstance(d, TopicControlData) else ["d", t - off, d.data["n"]]
          elif r.state == "pending": r.task.cancel()
          else: raise Exception("read fails: " + r.exc)
        elif k == "pub": await users[u].send(RawData({"n": o["n"]}))
        elif k == "pause": await users[u].set_paused(bool(o["v"]))
        elif k == "wait": waits[o["w"]] = asyncio.ensure_future(users[u].wait_paused(bool(o["v"])) if u in INH else users[u].wait_requested(bool(o["v"])))
        elif k == "giveup":
          if o["w"] not in waits: continue
          waits.pop(o["w"]).cancel()
      except Exception as e:
        ev.append({"k": "opfail", "op": o, "why": f"{type(e).__name__}: {e}"[:300]}); return
      await idle(2)
      done = [w for w, t in waits.items() if t.done()]
      for w in done:
        if (x := waits.pop(w)).exception(): errors.append(str(x.exception()))
      obs = {**{k2: (sorted(v) if k2 in ("add", "rem", "padd", "prem") else list(v)) for k2, v in out.items()}, "item": item,
             "req": [[u, int(users[u].is_requested)] for u in OUTH], "paused": [[u, int(users[u].is_paused)] for u in INH + OUTH], "done": done, "errors": errors[:2]}
      for v in out.values(): v.clear()
      ev.append({**o, "obs": obs})
  _, err = run(go, wall=20)
  if err: ev.append({"k": "opfail", "why": err})
  return ev

if __name__ == "__main__": main(scenario)
