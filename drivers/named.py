"""Named output and input blocks, a named topic manager and the streams between them."""
import os, sys, random, asyncio, shutil, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.driver import main
from vlib.vloop import run, idle
from streamtasks.net import Switch, create_queue_connection
from streamtasks.net.serialization import RawData
from streamtasks.net.messages import TopicControlData
from streamtasks.client import Client
from streamtasks.client.discovery import wait_for_address_name, register_topic_space
from streamtasks.services.constants import NetworkAddressNames as NAN
from streamtasks.services.discovery import DiscoveryWorker
from streamtasks.system.task import TaskManager, TaskManagerClient
from streamtasks.system.task_web import TaskWebBackend
from streamtasks.system.named_topic_manager import NamedTopicManager
from streamtasks.system.tasks.namedoutput import NamedOutputTaskHost
from streamtasks.system.tasks.namedinput import NamedInputTaskHost

SH = [{"on": [1, 1, 2], "src": [0, 0, 0], "in": [1, 1, 2, 3]}, {"on": [1, 2, 3], "src": [0, 0, 0], "in": [1, 1, 2, 3, 1]}, {"on": [1, 2, 3], "src": [0, 1, 0], "in": [1, 2, 2, 3]}, {"on": [1, 2, 2], "src": [0, 1, 0], "in": [1, 2, 2, 1]}]
NAMES = [["a", "b", "c"], ["käse brot", "käse", "käse  brot"], ["", " ", "0"], ["a/b", "a", "A"], ["x" * 300, "x" * 299, "named"]]
META = [{}, {"type": "ts", "content": "video"}, {"rate": 0.5, "n": 3, "b": False}, {"ü": ""}]

class D:
  def __init__(self, sc): self.rnd, self.bg, self.bad, self.sh, self.t = random.Random(sc["seed"]), [], [], SH[sc["cfg"] - 1], {}
  async def link(self, w):
    a, b = create_queue_connection(raw=self.rnd.random() < 0.4)
    await self.rnd.choice([self.sw, self.sw2]).add_link(a)
    await w.switch.add_link(b)
  async def client(self):
    a, b = create_queue_connection(raw=self.rnd.random() < 0.4)
    await self.rnd.choice([self.sw, self.sw2]).add_link(a)
    c = Client(b); c.start()
    await c.request_address()
    return c
  async def soon(self, coro, rounds=8):
    t = asyncio.ensure_future(coro)
    for _ in range(rounds):
      await idle()
      if t.done(): return t.result()
    t.cancel()
    raise Exception("no answer")
  def spawn(self, coro): t = asyncio.ensure_future(coro); self.bg.append(t); return t
  async def sink(self, i):
    h = self.C[2].in_topic(self.glob[1010 + i])
    async with h, h.RegisterContext():
      while True:
        d = await h.recv_data_control()
        if isinstance(d, TopicControlData): self.got[i].append([0, int(d.paused)]); self.ps[i] = int(d.paused); continue
        x = self.out.get(d.data.get("n") if isinstance(d.data, dict) else None)
        if x is None or x[1] != d.data: self.bad.append(f"data {d.data}"[:200])
        else: self.got[i].append(x[0])
  async def start(self):
    disc = DiscoveryWorker()
    self.spawn(disc.run())
    self.sw, self.sw2 = disc.switch, Switch()
    x, y = create_queue_connection()
    await self.sw.add_link(x); await self.sw2.add_link(y)
    await idle(2)
    for w in (TaskManager(), TaskWebBackend(), NamedTopicManager()): await self.link(w); self.spawn(w.run())
    self.C = [await self.soon(self.client()) for _ in range(3)]
    for n in (NAN.TASK_MANAGER, NAN.NAMED_TOPIC_MANAGER): await self.soon(wait_for_address_name(self.C[0], n))
    self.ho, self.hi = NamedOutputTaskHost([NAN.TASK_MANAGER]), NamedInputTaskHost([NAN.TASK_MANAGER])
    for h in (self.ho, self.hi): await self.link(h); self.spawn(h.run())
    await self.soon(self.hi.ready.wait()); await self.soon(self.ho.ready.wait())
    await idle(3)
    self.space, self.glob = await self.soon(register_topic_space(self.C[0], set(range(1001, 1016))))
    self.names = list(self.rnd.choice(NAMES)); self.rnd.shuffle(self.names)
    self.got, self.ps, self.out, self.n = {}, {}, {}, 0
    for i in range(1, len(self.sh["in"]) + 1): self.got[i], self.ps[i] = [], 0; self.spawn(self.sink(i))
    self.src = {}
    for o, s in enumerate(self.sh["src"]):
      if s: continue
      h = self.src[o + 1] = self.C[1].out_topic(self.glob[1001 + o])
      await h.start(); await h.set_registered(True)
    self.tm = TaskManagerClient(self.C[0])
    await idle(3)
  def topic(self, t):
    t += 1000
    return (self.space, t) if self.rnd.random() < 0.5 else (None, self.glob[t])
  async def begin(self, k, b):
    if k == "startO":
      s = self.sh["src"][b - 1]
      sp, t = self.topic(10 + s if s else b)
      r = await self.tm.schedule_start_task(self.ho.id, {"name": self.names[self.sh["on"][b - 1] - 1], "metadata": META[b], "in_topic": t}, sp)
    elif k == "startI":
      sp, t = self.topic(10 + b)
      r = await self.tm.schedule_start_task(self.hi.id, {"name": self.names[self.sh["in"][b - 1] - 1], "out_topic": t}, sp)
    else:
      h = self.rnd.choice([self.hi, self.ho])
      r = await self.tm.schedule_start_task(h.id, self.rnd.choice([{"name": "named topic", "metadata": {}, "out_topic": 1, "in_topic": 1}, {"name": self.names[0]}]))
      if r.status.value != "failed": self.bad.append(f"started {r}"[:200])
      return
    if r.status.value != "running": self.bad.append(str(r)[:300])
    self.t[k[-1], b] = r.id
  async def end(self, k, b):
    r = await self.tm.cancel_task_wait(self.t.pop((k[-1], b)))
    if r.status.value not in ("stopped", "ended"): self.bad.append(str(r)[:300])
  async def do(self, x):
    if x["k"] == "del": await self.C[0].fetch(NAN.NAMED_TOPIC_MANAGER, "delete_named_topic", {"name": self.names[x["b"] - 1]})
    elif x["k"].startswith("stop"): await self.end(x["k"], x["b"])
    else: await self.begin(x["k"], x["b"])
  async def ops(self, o):
    if o["k"] == "blocks":
      ts = []
      for x in o["s"]:
        ts.append(self.spawn(self.do(x)))
        if self.rnd.random() < 0.5:
          for _ in range(self.rnd.choice([1, 2, 5, 10, 20, 40, 80])): await asyncio.sleep(0)
      await self.soon(asyncio.gather(*ts), 20)
    else:
      for k, x in enumerate(o["s"]):
        if x["k"] == "pause": await self.src[x["b"]].set_paused(bool(x["v"]))
        else:
          self.n += 1
          d = {"n": self.n, "v": self.rnd.choice([0, 1.5, "tëxt", b"\0\xff", [1, {"a": None}], {"deep": [[]]}, True, None, "x" * 3000])}
          self.out[self.n] = [[x["b"], k + 1], d]
          await self.src[x["b"]].send(RawData(dict(d)))
        if self.rnd.random() < 0.3:
          for _ in range(self.rnd.choice([1, 2, 5, 10, 20])): await asyncio.sleep(0)

def scenario(sc):
  ev = []
  scratch = tempfile.mkdtemp(prefix="named", dir=os.getcwd())
  os.environ["DATA_DIR"] = os.path.join(scratch, "data"); os.mkdir(os.environ["DATA_DIR"])
  async def go():
    d = D(sc)
    try:
      try: await d.start()
      except BaseException as e: ev.append({"k": "opfail", "why": f"start {type(e).__name__}: {e}"[:300]}); return
      for o in sc["ops"]:
        try:
          await d.ops(o)
          await idle(6)
          L = await d.soon(d.C[0].fetch(NAN.NAMED_TOPIC_MANAGER, "list_named_topics", None))
        except BaseException as e:
          ev.append({"k": "opfail", "op": o, "why": f"{type(e).__name__}: {e}"[:300]}); return
        names = []
        for x in L:
          if x["name"] in d.names and x["metadata"] in META: names.append([d.names.index(x["name"]) + 1, META.index(x["metadata"])])
          else: d.bad.append(f"name {x}"[:200]); names.append([9, 9])
        ev.append({**o, "obs": {"names": names, "ps": [d.ps[i] for i in sorted(d.ps)], "req": [int(d.src[o].is_requested) if o in d.src else 0 for o in range(1, len(d.sh["on"]) + 1)],
                                "got": [[i, g[:]] for i, g in sorted(d.got.items()) if g], "bad": d.bad[:]}})
        d.bad.clear()
        for g in d.got.values(): g.clear()
    finally:
      for t in d.bg: t.cancel()
  try:
    _, err = run(go, wall=25, patch_time=True)
    if err: ev.append({"k": "opfail", "why": err})
  finally: shutil.rmtree(scratch, ignore_errors=True)
  return ev

if __name__ == "__main__": main(scenario)
