"""Tasks built from functions."""
import os, sys, random, asyncio, json
from dataclasses import dataclass
from typing import Annotated
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.driver import main
from vlib.vloop import run, idle, advance
from streamtasks.net import Switch, create_queue_connection
from streamtasks.net.serialization import RawData
from streamtasks.net.messages import TopicControlData
from streamtasks.client import Client
from streamtasks.client.receiver import TopicsReceiver
from streamtasks.client.discovery import wait_for_address_name
from streamtasks.services.constants import NetworkAddressNames as NAN
from streamtasks.services.discovery import DiscoveryWorker
from streamtasks.system.task import TaskManager, TaskManagerClient
from streamtasks.message.types import NumberMessage, TextMessage, TimestampChuckMessage
from streamtasks.system.fntask import fntask

class Boom(Exception): pass
@dataclass
class Cfg:
  x: int = 3
@dataclass
class State:
  n: int = 0
  log: object = None

cur = None  # the running driver
def val(a): return int(a.decode() if isinstance(a, bytes) else a)
def note(types, params, outs, ts=None, cfg=None, state=None):
  """notes a call and tells what to return"""
  for a, t in zip(params, types):
    if not isinstance(a, t) or isinstance(a, bool): cur.bad.append(f"type {a!r}")
  if state is not None:
    if state.log is None: state.log = []
    state.n += 1
    state.log.append(state.n)
    if state.log != list(range(1, state.n + 1)): cur.bad.append("state")
  p = [val(a) for a in params]
  if ts is not None and not isinstance(ts, int): cur.bad.append(f"timestamp {ts!r}")
  cur.calls.append({"s": cur.who(p), "ts": -1 if ts is None else ts, "p": p, "n": 0 if state is None else state.n, "x": 0 if cfg is None else cfg.x})
  s = sum(p)
  w = s * 100 + (0 if state is None else state.n % 100) + (0 if cfg is None else cfg.x) * 100000
  if s % 17 == 0: return None
  r = [t(w + (j + 1) * 1000000) for j, t in enumerate(outs)]
  if r and s % 7 == 0: r[-1] = b"" if outs[-1] is tob else outs[-1]()
  if r and s % 5 == 0: r[0] = "abc" if outs[0] in (int, float) else 5
  return r
def fin(r):
  if r is None: raise Boom("function")
  return r[0] if len(r) == 1 else tuple(r) if len(r) else None
num = (int, float)
def back(x):
  if x in (0, "", b""): return -7
  if not isinstance(x, (str, bytes)) and x != int(x): raise ValueError()
  return int(x)
def tob(x): return b"%d" % x

def functions():
  @fntask(label="adder")
  def f1(a: int, b: int) -> int: return fin(note((num, num), (a, b), (int,)))
  @fntask()
  def f2(a: float, b: str, timestamp: int, c: bytes) -> tuple[float, str]: return fin(note((num, str, bytes), (a, b, c), (float, str), timestamp))
  @fntask()
  async def f3(a: int, config: Cfg, b: str, state: State, timestamp: int) -> tuple[str, bytes]:
    r = note((num, str), (a, b), (str, tob), timestamp, config, state)
    await cur.wait((val(a), val(b)))
    return fin(r)
  @fntask(thread_safe=True)
  def f4(state: State, a: bytes) -> bytes: return fin(note((bytes,), (a,), (tob,), None, None, state))
  @fntask()
  def f5(a: int, b: float, config: Cfg): return fin(note((num, num), (a, b), (), None, config))
  @fntask(thread_safe=True)
  async def f6(a: Annotated[str, {"content": "video"}, {"x": "rate"}], state: State, config: Cfg, timestamp: int) -> None:
    await asyncio.sleep(0)
    return fin(note((str,), (a,), (), timestamp, config, state))
  @fntask(thread_safe=True)
  def f7(a: float, b: int, config: Cfg, state: State) -> tuple[Annotated[int, {"rate": 1}], float]: return fin(note((num, num), (a, b), (int, float), None, config, state))
  @fntask(label="eight")
  async def f8(a: str, b: int, c: float, state: State) -> float:
    r = note((str, num, num), (a, b, c), (float,), None, None, state)
    await cur.wait((val(a), val(b), val(c)))
    return fin(r)
  return [f1, f2, f3, f4, f5, f6, f7, f8]
TYPES = [(int, int), (float, str, bytes), (int, str), (bytes,), (int, float), (str,), (float, int), (str, int, float)]
OUTS = [(int,), (float, str), (str, bytes), (bytes,), (), (), (int, float), (float,)]

class Slot:
  def __init__(self): self.id, self.status, self.ins, self.outs, self.sent, self.bg = None, "none", [], [], {}, []

class D:
  def __init__(self, sc):
    global cur
    cur = self
    self.rnd, self.f = random.Random(sc["seed"]), sc["cfg"]
    self.bad, self.calls, self.outs, self.slots, self.waits, self.bg, self.topic = [], [], [], {1: Slot(), 2: Slot()}, [], [], 100
  async def link(self, sw):
    a, b = create_queue_connection(raw=self.rnd.random() < 0.6)
    await self.sw.add_link(a)
    await sw.add_link(b)
  async def client(self):
    a, b = create_queue_connection(raw=self.rnd.random() < 0.6)
    await self.sw.add_link(a)
    c = Client(b); c.start()
    await c.request_address()
    await TopicsReceiver(c, []).start_recv()
    return c
  async def soon(self, coro, rounds=4):
    t = asyncio.ensure_future(coro)
    for _ in range(rounds):
      await idle()
      if t.done(): return t.result()
    t.cancel()
    raise Exception("no answer")
  async def start(self):
    disc = DiscoveryWorker()
    self.bg.append(asyncio.ensure_future(disc.run()))
    self.sw = disc.switch
    await idle(2)
    tm = TaskManager()
    await self.link(tm.switch)
    self.bg.append(asyncio.ensure_future(tm.run()))
    self.c = await self.soon(self.client())
    self.sub = await self.soon(self.client())
    await self.soon(wait_for_address_name(self.c, NAN.TASK_MANAGER))
    self.m = TaskManagerClient(self.c)
    a, b = create_queue_connection(raw=self.rnd.random() < 0.6)
    await self.sw.add_link(a)
    self.bg.append(asyncio.ensure_future(functions()[self.f - 1].run(to=b)))
    await idle(4)
    hosts = await self.soon(self.m.list_task_hosts())
    if len(hosts) != 1: raise Exception("host not registered")
    self.host = hosts[0]
  def who(self, p):
    """the task a value belongs to: it is the only one that got it"""
    for k, s in self.slots.items():
      if all(v in s.sent.get(i, ()) for i, v in enumerate(p)): return k
    self.bad.append(f"values {p}")
    return 0
  async def wait(self, p):
    f = asyncio.get_running_loop().create_future()
    w = [self.who(p), f]
    self.waits.append(w)
    try: await f
    finally: self.waits.remove(w)
  def message(self, ty, m):
    if m["m"] == "junk": return self.rnd.choice([{"x": 1}, [1], "abc", {"timestamp": "x", "value": 5}])
    if m["m"] == "bad": return self.rnd.choice([{"timestamp": m["t"]}, {"timestamp": m["t"], "value": [1]}, {"timestamp": m["t"], "value": 7 if ty is str else "abc", "data": 4}])
    v = m["v"]
    if ty in (int, float): return NumberMessage(timestamp=m["t"], value=v).model_dump()
    if ty is str: return TextMessage(timestamp=m["t"], value=str(v)).model_dump()
    return TimestampChuckMessage(timestamp=m["t"], data=b"%d" % v).model_dump()
  async def watch(self, k, j, ty, topic):
    t = self.sub.in_topic(topic)
    async with t, t.RegisterContext():
      while True:
        d = (await t.recv_data()).data
        try:
          if ty in (int, float): w = back(NumberMessage.model_validate(d).value)
          elif ty is str: w = back(TextMessage.model_validate(d).value)
          else: w = back(TimestampChuckMessage.model_validate(d).data)
          self.outs.append([k, j, d["timestamp"], int(w)])
        except Exception: self.bad.append(f"published {d}"[:200])
  async def begin(self, o):
    s = self.slots[o["s"]]
    for t in s.bg: t.cancel()
    md = self.host.metadata
    ins, keys = json.loads(md["cfg:inputs"]), json.loads(md["cfg:outputkeys"])
    s.ins, s.outs, s.sent = [], [], {}
    config = json.loads(md.get("cfg:config", "{}"))
    if not o["sync"]: config["std_synchronized"] = False
    elif self.rnd.random() < 0.5: config["std_synchronized"] = True
    if o["x"] < 0: config["x"] = self.rnd.choice(["no", None, [1]])
    elif o["x"] > 0: config["x"] = o["x"]
    elif self.rnd.random() < 0.5: config.pop("x", None)
    for i in ins:
      self.topic += 1; s.ins.append(self.topic); config[i["key"]] = self.topic
    for key in keys:
      self.topic += 1; s.outs.append(self.topic); config[key] = self.topic
    await self.c.register_out_topics(s.ins)
    s.bg = [asyncio.ensure_future(self.watch(o["s"], j + 1, ty, t)) for j, (ty, t) in enumerate(zip(OUTS[self.f - 1], s.outs))]
    await idle(2)
    s.id, s.status = (await self.soon(self.m.schedule_task(self.host.id))).id, "none"
    async def follow(k, s, tid):
      async with self.m.task_receiver([tid]) as r:
        ready.set()
        while True:
          x = await r.get()
          if s.id == tid: s.status = x.status.value
    ready = asyncio.Event()
    s.bg.append(asyncio.ensure_future(follow(o["s"], s, s.id)))
    await self.soon(ready.wait())
    x = await self.soon(self.m.start_task(s.id, config))
    s.status = x.status.value if s.status in ("none", "scheduled") else s.status
  async def do(self, o):
    k = o["k"]
    if k == "meta": return
    s = self.slots[o["s"]]
    if k == "start" and s.status != "running": await self.begin(o)
    elif k == "stop" and s.status == "running": await self.soon(self.m.cancel_task_wait(s.id))
    elif k == "send":
      for m in o["ms"]:
        i = m["i"] - 1
        t = s.ins[i]
        if m["m"] == "data": s.sent.setdefault(i, set()).add(m["v"])
        if m["m"] in ("pause", "resume"): await self.c.send_stream_control(t, TopicControlData(paused=m["m"] == "pause"))
        else: await self.c.send_stream_data(t, RawData(self.message(TYPES[self.f - 1][i], m)))
    elif k == "rel":
      w = [x for x in self.waits if x[0] == o["s"]]
      if w: w[0][1].set_result(None)
  def meta(self):
    md = self.host.metadata
    ins, outs = json.loads(md["cfg:inputs"]), json.loads(md["cfg:outputs"])
    if any(x.get("type") != "ts" or not x.get("label") for x in ins + outs): self.bad.append("metadata")
    return {"ins": [x.get("content", "") for x in ins], "outs": [x.get("content", "") for x in outs], "x": json.loads(md.get("cfg:config", "{}")).get("x", 0),
            "io": ins[0].get("rate", 0), "fields": [x.get("key", "") for x in json.loads(md["cfg:editorfields"])]}

def scenario(sc):
  ev = []
  async def go():
    d = D(sc)
    await d.start()
    try:
      for o in sc["ops"]:
        o = json.loads(json.dumps(o))
        try:
          await d.do(o)
          await idle(4)
        except BaseException as e:
          ev.append({"k": "opfail", "op": o, "why": f"{type(e).__name__}: {e}"[:300]}); return
        ev.append({**o, "obs": {"calls": d.calls[:], "outs": d.outs[:], "status": [d.slots[1].status, d.slots[2].status], "busy": [sum(w[0] == k for w in d.waits) for k in (1, 2)], "bad": d.bad[:], "meta": d.meta() if o["k"] == "meta" else {}}})
        d.calls.clear(); d.outs.clear(); d.bad.clear()
    finally:
      for t in d.bg + d.slots[1].bg + d.slots[2].bg: t.cancel()
  _, err = run(go, wall=25)
  if err: ev.append({"k": "opfail", "why": err})
  return ev

if __name__ == "__main__": main(scenario)
