"""Task manager and task hosts with tasks that do what they are told."""
import os, sys, random, asyncio, threading, contextlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.driver import main
from vlib.vloop import run, idle, advance
from streamtasks.net import Switch, create_queue_connection
from streamtasks.client import Client
from streamtasks.client.receiver import TopicsReceiver
from streamtasks.client.fetch import FetchError
from streamtasks.client.discovery import wait_for_address_name, register_topic_space
from streamtasks.services.constants import NetworkAddressNames as NAN
from streamtasks.services.discovery import DiscoveryWorker
from streamtasks.system.task import Task, SyncTask, TaskHost, TaskManager, TaskManagerClient, TaskNotFoundError, TaskStatus

class Boom(Exception): pass

class Ctl:
  """what the driver knows about one task"""
  def __init__(self, t, kd): self.t, self.kd, self.alive, self.how = t, kd, False, None
  def wake(self): pass

def boom(ctl): return Boom(f"boom-{ctl.t}-end")

class Body(Task):
  def __init__(self, client, ctl): super().__init__(client); self.ctl = ctl; self.ev = asyncio.Event(); ctl.wake = self.ev.set
  async def setup(self): return await setup(self.ctl)
  async def run(self):
    c = self.ctl
    c.alive = True
    try:
      if c.kd["run"] == "end": return
      if c.kd["run"] == "raise": raise boom(c)
      while c.how is None:
        try: await self.ev.wait()
        except asyncio.CancelledError:
          k = c.kd["can"]
          if k == "fin": return
          if k == "raise": raise boom(c)
          if k in ("slow", "long"):
            c.how = "end"
            await asyncio.sleep(0.4 if k == "slow" else 3)
            raise
          if k != "ign": raise
      if c.how == "raise": raise boom(c)
    finally: c.alive = False

class Stop(threading.Event):
  def __init__(self, ctl): super().__init__(); self.ctl = ctl
  def set(self):
    super().set()
    if self.ctl.kd["can"] != "ign": self.ctl.wake()

class SyncBody(SyncTask):
  """its thread does not count as busy while it waits"""
  def __init__(self, client, ctl):
    super().__init__(client)
    self.ctl = ctl
    self.lp = asyncio.get_running_loop()
    self.ev, self.waiting = threading.Event(), False
    ctl.wake = self.wake
    self.stop_event = Stop(ctl)
  def wake(self):
    if self.ev.is_set(): return
    if self.waiting: self.lp.busy_jobs += 1; self.waiting = False
    self.ev.set()
  def parked(self):
    if not self.ev.is_set(): self.lp.busy_jobs -= 1; self.waiting = True
  async def setup(self): return await setup(self.ctl)
  @contextlib.asynccontextmanager
  async def init(self): yield
  def run_sync(self):
    c = self.ctl
    c.alive = True
    try:
      if c.kd["run"] == "end": return
      if c.kd["run"] == "raise": raise boom(c)
      self.lp.call_soon_threadsafe(self.parked)
      self.ev.wait()
      if self.stop_event.is_set() and c.kd["can"] != "ign":
        if c.kd["can"] == "raise": raise boom(c)
        return
      if c.how == "raise": raise boom(c)
    finally: c.alive = False

async def setup(c):
  k = c.kd["set"]
  if k == "raise": raise boom(c)
  if k == "hang": await asyncio.sleep(1000)
  if k == "short": await asyncio.sleep(0.6)
  if k == "bad": return {"x": [1]}
  return {"t": c.t}

class VHost(TaskHost):
  def __init__(self, d, eps): super().__init__(eps); self.d = d
  @property
  def metadata(self): return {"label": type(self).__name__}
  async def create_task(self, config, topic_space_id):
    d = self.d
    rid = config.get("rid") if isinstance(config, dict) else None
    if rid not in d.started or config != d.started[rid][1] or topic_space_id != d.space[config["t"]]:
      d.badcfg.append(str((config, topic_space_id))[:200])
      raise Boom("config")
    c = Ctl(config["t"], d.started[rid][0])
    d.ctl.setdefault(c.t, c)
    d.made.append(c.t)
    if c.kd["set"] == "create": raise boom(c)
    client = await self.create_client(topic_space_id)
    return SyncBody(client, c) if c.kd["sync"] else Body(client, c)
class HostOne(VHost): pass
class HostTwo(VHost): pass

CONFIGS = [{"a": 1}, {}, {"a": {"b": [1, None, True, 0.5, "ü"]}}, {"x": "y" * 3000}]
ACTIVE = ("scheduled", "running")

class D:
  def __init__(self, sc):
    self.rnd = random.Random(sc["seed"])
    self.ctl, self.started, self.space, self.ids, self.made, self.badcfg = {}, {}, {}, {}, [], []
    self.hosts, self.all_hosts = {}, []
    self.bc, self.reqs, self.hreg, self.hunreg, self.last = [], {}, [], [], {}
    self.resp = []

  async def link(self, host):
    a, b = create_queue_connection(raw=self.rnd.random() < 0.4)
    await self.rnd.choice([self.sw, self.sw2]).add_link(a)
    await host.switch.add_link(b)
    return b
  async def client(self):
    a, b = create_queue_connection(raw=self.rnd.random() < 0.4)
    await self.rnd.choice([self.sw, self.sw2]).add_link(a)
    c = Client(b); c.start()
    await c.request_address()
    await TopicsReceiver(c, []).start_recv()
    return c
  async def soon(self, coro, rounds=4):
    t = asyncio.ensure_future(coro)
    for _ in range(rounds):
      await idle()
      if t.done(): return t.result()
    t.cancel()
    raise Exception("no answer")
  async def start(self):
    self.bg = []
    disc = DiscoveryWorker()
    self.bg.append(asyncio.ensure_future(disc.run()))
    self.sw, self.sw2 = disc.switch, Switch()
    x, y = create_queue_connection()
    await self.sw.add_link(x); await self.sw2.add_link(y)
    await idle(2)
    self.tm = TaskManager()
    await self.link(self.tm)
    self.bg.append(asyncio.ensure_future(self.tm.run()))
    self.U = [await self.soon(self.client()), await self.soon(self.client())]
    self.mon = await self.soon(self.client())
    await self.soon(wait_for_address_name(self.mon, NAN.TASK_MANAGER))
    self.um, self.mm = [TaskManagerClient(c) for c in self.U], TaskManagerClient(self.mon)
    self.sids = [None, (await self.soon(register_topic_space(self.mon, {1, 2, 3})))[0]]
    await self.watch(self.mm.task_host_registered_receiver(), lambda x: self.hreg.append(x))
    await self.watch(self.mm.task_host_unregistered_receiver(), lambda x: self.hunreg.append(x))
  async def watch(self, recv, f):
    async def loop():
      async with recv:
        ready.set()
        while True: f(await recv.get())
    ready = asyncio.Event()
    self.bg.append(asyncio.ensure_future(loop()))
    await self.soon(ready.wait())

  def err(self, t, e): return "none" if e is None else "own" if f"boom-{t}-end" in e else "other"
  def inst(self, t, x, rid):
    if str(x.id) != str(self.ids[t]): self.badcfg.append(f"answer for another task {rid}")
    if x.host_id != self.hid[t] or x.topic_space_id != self.space[t]: self.badcfg.append(f"host or space {rid}")
    if x.status is TaskStatus.running and x.metadata != {"t": t}: self.badcfg.append(f"metadata {x.metadata} {rid}")
    return x.status.value, self.err(t, x.error)
  async def request(self, o):
    rid, t = o["rid"], o["t"]
    m = self.rnd.choice(self.um)
    code, st, er = "ok", "", "none"
    try:
      if o["k"] == "start": st, er = self.inst(t, await m.start_task(self.ids[t], self.started[rid][1]), rid)
      elif o["k"] == "cancel": await m.cancel_task(self.ids[t])
      elif o["k"] == "cwait": st, er = self.inst(t, await m.cancel_task_wait(self.ids[t]), rid)
      else: st, er = self.inst(t, await m.get_task(self.ids[t]), rid)
    except FetchError as e: code = e.status_code.value if e.status_code else "?"
    except TaskNotFoundError: code = "not_found"
    self.resp.append([rid, code, st, er])
  def issue(self, o):
    k = o["k"]
    if k == "start": self.started[o["rid"]] = (o["kd"], {**self.rnd.choice(CONFIGS), "t": o["t"], "rid": o["rid"]})
    if k in ("start", "cancel", "cwait", "get"): self.reqs[o["rid"]] = asyncio.ensure_future(self.request(o))
    elif k == "down": self.hosts[o["h"]][1].cancel()
    elif k == "finish":
      c = self.ctl[o["t"]]
      if c.how is None: c.how = o["how"]; c.wake()
  async def sched(self, o):
    t = len(self.ids) + 1
    sid = self.rnd.choice(self.sids)
    cls = [HostOne, HostTwo][o["h"] - 1]
    hid = self.host_ids[o["h"]]
    m = self.rnd.choice(self.um)
    x = await self.soon(m.schedule_task(hid, sid))
    self.ids[t], self.hid[t] = x.id, hid
    self.space[t] = sid
    self.resp.append([o["rid"], "ok", *self.inst(t, x, o["rid"])])
    await self.watch(self.mm.task_receiver([x.id]), lambda y, t=t: self.bc.append((t, y)))

def scenario(sc):
  ev = []
  async def go():
    d = D(sc)
    await d.start()
    d.hid = {}
    d.host_ids = {1: HostOne(d, []).id, 2: HostTwo(d, []).id}
    hnum = {v: k for k, v in d.host_ids.items()}
    over = {}
    try:
      for o in sc["ops"]:
        k = o["k"]
        try:
          if k == "sched": await d.sched(o)
          elif k == "up":
            host = [HostOne, HostTwo][o["h"] - 1](d, [NAN.TASK_MANAGER])
            lk = await d.link(host)
            d.hosts[o["h"]] = (host, asyncio.ensure_future(host.run()), lk)
            d.all_hosts.append(d.hosts[o["h"]])
          elif k == "lose": d.hosts[o["h"]][2].close()
          elif k == "time": await advance(o["dt"] / 1000)
          elif k == "burst":
            xs = [o["a"], o["b"]]
            if d.rnd.random() < 0.5: xs.reverse()
            d.issue(xs[0])
            for _ in range(d.rnd.choice([0, 0, 0, 1, 2, 3, 5, 8, 12, 16, 20, 30])): await asyncio.sleep(0)
            d.issue(xs[1])
          else: d.issue(o)
          await idle(4)
          for r in [r for r, t in d.reqs.items() if t.done()]: d.reqs.pop(r).result()
          view, hosts = [], []
          async def look():
            for t in sorted(d.ids):
              try: view.append(d.inst(t, await d.mm.get_task(d.ids[t]), 0)[0])
              except FetchError as e: view.append("none" if e.status_code and e.status_code.value == "not_found" else "error")
            for x in await d.mm.list_task_hosts():
              h = hnum.get(x.id, -1)
              y = await d.mm.get_task_host(x.id)
              good = h in d.hosts and x.address == d.hosts[h][0].client.address and y == x and x.metadata.get("label") == type(d.hosts[h][0]).__name__
              hosts.append(h if good else -h)
          t = asyncio.ensure_future(look())
          await idle(3)
          if t.done(): t.result()
          else: t.cancel(); view, hosts = [], []
        except BaseException as e:
          ev.append({"k": "opfail", "op": o, "why": f"{type(e).__name__}: {e}"[:300]}); return
        fin, back = [], []
        for t, x in d.bc:
          s = x.status.value
          if t in over or s == "scheduled": back.append([t, s])
          if s not in ACTIVE: over[t] = s; fin.append([t, *d.inst(t, x, 0)])
        d.bc.clear()
        reg, unreg = [], []
        for x in d.hreg:
          h = hnum.get(x.id, -1)
          reg.append(h if h in d.hosts and x.address == d.hosts[h][0].client.address else -1)
        for x in d.hunreg: unreg.append(hnum.get(x.id, -1))
        d.hreg.clear(); d.hunreg.clear()
        alive = sorted(t for t, c in d.ctl.items() if c.alive)
        ev.append({**o, "obs": {"resp": d.resp[:], "fin": fin, "back": back, "alive": alive, "made": d.made[:], "view": view, "hosts": hosts, "hreg": reg, "hunreg": unreg, "cfg": d.badcfg[:]}})
        d.resp.clear(); d.made.clear(); d.badcfg.clear()
    finally:
      for c in d.ctl.values(): c.how = c.how or "end"; c.wake()
      for _, t, _ in d.all_hosts: t.cancel()
      for t in d.bg: t.cancel()
  _, err = run(go, wall=25)
  if err: ev.append({"k": "opfail", "why": err})
  return ev

if __name__ == "__main__": main(scenario)
