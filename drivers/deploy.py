"""Deployments behind the web interface: a task manager, a task host and the interface itself."""
import os, sys, random, asyncio, json, shutil, tempfile, urllib.parse, uuid
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.driver import main
from vlib.vloop import run, idle, advance
from streamtasks.net import Switch, create_queue_connection
from streamtasks.client import Client
from streamtasks.client.receiver import TopicsReceiver
from streamtasks.client.fetch import FetchError
from streamtasks.client.discovery import wait_for_address_name, get_topic_space
from streamtasks.services.constants import NetworkAddressNames as NAN
from streamtasks.services.discovery import DiscoveryWorker
from streamtasks.asgi import ASGIProxyApp
from streamtasks.system.task import Task, TaskHost, TaskManager
from streamtasks.system.task_web import TaskWebBackend

class Boom(Exception): pass

class Body(Task):
  def __init__(self, client, u, kd): super().__init__(client); self.u, self.kd, self.how, self.alive, self.ev = u, kd, None, False, asyncio.Event()
  async def setup(self):
    if self.kd == "setup": raise Boom(f"boom-{self.u}")
    if self.kd == "hang": await asyncio.sleep(1000)
    return {"u": self.u}
  async def run(self):
    self.alive = True
    try:
      if self.kd == "end": return
      if self.kd == "raise": raise Boom(f"boom-{self.u}")
      while self.how is None:
        try: await self.ev.wait()
        except asyncio.CancelledError:
          if self.kd == "slow": self.how = "end"; await asyncio.sleep(0.4)
          if self.kd != "ign": raise
      if self.how == "raise": raise Boom(f"boom-{self.u}")
    finally: self.alive = False

class VHost(TaskHost):
  def __init__(self, d): super().__init__([NAN.TASK_MANAGER]); self.d = d
  async def create_task(self, config, topic_space_id):
    d = self.d
    u = config.get("u") if isinstance(config, dict) else None
    x = d.stored.get(u)
    if x is None or config != x["config"]: d.bad.append(f"config {config}"[:200]); raise Boom("config")
    want = {o["topic_id"] for t in d.stored.values() if t["deployment_id"] == x["deployment_id"] for o in t["outputs"]}
    try: have = dict(await get_topic_space(self.client, topic_space_id))
    except FetchError as e: have = {}; d.bad.append(f"no topic space {topic_space_id}")
    if set(have) != want: d.bad.append(f"topic space {have} {want}")
    dep = x["deployment_id"]
    if d.spaces.setdefault(dep, topic_space_id) != topic_space_id: d.bad.append(f"two topic spaces {topic_space_id}")
    if any(k != dep and v == topic_space_id for k, v in d.spaces.items()): d.bad.append("shared topic space")
    d.made.append(u)
    if config["kd"] == "create": raise Boom(f"boom-{u}")
    b = Body(await self.create_client(topic_space_id), u, config["kd"])
    d.bodies.append(b)
    return b

LABELS = ["x", "", "käse \U0001f600"]
CONFIGS = [{"a": 1}, {}, {"a": {"b": [1, None, True, 0.5, "ü"]}}, {"x": "y" * 3000}]

class D:
  def __init__(self, sc):
    self.rnd = random.Random(sc["seed"])
    r = random.Random(11)
    self.uid = {(k, i): str(uuid.UUID(int=r.getrandbits(128), version=4)) for k in "du" for i in range(1, 6)}
    self.inv = {v: k[1] for k, v in self.uid.items()}
    self.stored, self.spaces, self.bad, self.made, self.bodies, self.reqs, self.resp = {}, {}, [], [], [], {}, []
    self.hosts = []
  async def link(self, w):
    a, b = create_queue_connection(raw=self.rnd.random() < 0.4)
    await self.rnd.choice([self.sw, self.sw2]).add_link(a)
    await w.switch.add_link(b)
  async def client(self):
    a, b = create_queue_connection(raw=self.rnd.random() < 0.4)
    await self.rnd.choice([self.sw, self.sw2]).add_link(a)
    c = Client(b); c.start()
    await c.request_address()
    await TopicsReceiver(c, []).start_recv()
    return c
  async def soon(self, coro, rounds=4):
    t = asyncio.ensure_future(coro)
    for _ in range(rounds):
      await idle()
      if t.done(): return t.result()
    t.cancel()
    raise Exception("no answer")
  async def start(self):
    disc = DiscoveryWorker()
    self.bg = [asyncio.ensure_future(disc.run())]
    self.sw, self.sw2 = disc.switch, Switch()
    x, y = create_queue_connection()
    await self.sw.add_link(x); await self.sw2.add_link(y)
    await idle(2)
    for w in (TaskManager(), TaskWebBackend()):
      await self.link(w)
      self.bg.append(asyncio.ensure_future(w.run()))
    self.C = [await self.soon(self.client()), await self.soon(self.client())]
    for n in (NAN.TASK_MANAGER, NAN.TASK_MANAGER_WEB): await self.soon(wait_for_address_name(self.C[0], n))
    self.hid = VHost(self).id
  async def up(self):
    h = VHost(self)
    await self.link(h)
    self.hosts.append(asyncio.ensure_future(h.run()))

  async def http(self, method, path, body=b""):
    rnd, out = self.rnd, []
    parts = [body]
    if len(body) > 1 and rnd.random() < 0.3: n = rnd.randrange(1, len(body)); parts = [body[:n], body[n:]]
    evs = [{"type": "http.request", "body": p, "more_body": i < len(parts) - 1} for i, p in enumerate(parts)]
    scope = {"type": "http", "asgi": {"version": "3.0"}, "http_version": "1.1", "method": method, "scheme": "http", "path": path, "raw_path": urllib.parse.quote(path).encode(), "query_string": b"", "root_path": "",
             "headers": [(b"content-type", b"application/json"), (b"content-length", str(len(body)).encode())]}
    async def receive():
      if evs: return evs.pop(0)
      await asyncio.Future()
    async def send(e): out.append(e)
    await ASGIProxyApp(rnd.choice(self.C), NAN.TASK_MANAGER_WEB)(scope, receive, send)
    return out[0]["status"], b"".join(e.get("body", b"") for e in out[1:])

  def dep(self, d, l): return {"id": self.uid["d", d], "label": LABELS[l - 1]}
  def task(self, o):
    u, v = o["u"], o["v"]
    outs = [{"topic_id": 10 * u + i, "label": "o", "n": 0.5} for i in range((u + v) % 3)]
    return {"id": self.uid["u", u], "deployment_id": self.uid["d", o["d"]], "task_host_id": self.hid, "label": LABELS[v % 3], "config": {**CONFIGS[v - 1], "u": u, "kd": o["kd"], "v": v},
            "frontend_config": CONFIGS[4 - v], "inputs": [{"label": "i", "topic_id": 3}] * (v % 3), "outputs": outs}
  async def request(self, o):
    k = o["k"]
    D = lambda: self.uid["d", o["d"]]
    was = dict(self.stored)
    if k in ("newdep", "putdep"): st, b = await self.http("POST" if k == "newdep" else "PUT", "/api/deployment", json.dumps(self.dep(o["d"], o["l"])).encode())
    elif k == "deldep": st, b = await self.http("DELETE", "/api/deployment/" + D())
    elif k == "puttask":
      x = self.task(o)
      st, b = await self.http("PUT", "/api/task", json.dumps(x).encode())
      if st < 400:
        self.stored[o["u"]] = x
        if json.loads(b) != x: self.bad.append(f"stored {b}"[:200])
    elif k == "deltask":
      st, b = await self.http("DELETE", "/api/task/" + self.uid["u", o["u"]])
      if st < 400: self.stored.pop(o["u"], None)
    else:
      st, b = await self.http("POST", f"/api/deployment/{D()}/{'schedule' if k == 'sched' else k}")
      if st < 400:
        x = json.loads(b)
        if x.get("id") != D() or x.get("status") != {"sched": "scheduled", "start": "running", "stop": "offline"}[k]: self.bad.append(f"{k} answered {b}"[:200])
        if k == "stop":
          s = self.spaces.pop(D(), None)
          if s is not None:
            try: await get_topic_space(self.C[0], s); self.bad.append("topic space left behind")
            except FetchError: pass
    self.resp.append([o["rid"], "ok" if st < 400 else "refused"])
  def issue(self, o):
    if "rid" in o: self.reqs[o["rid"]] = asyncio.ensure_future(self.request(o))
    elif o["k"] == "finish":
      for b in self.bodies:
        if b.u == o["u"] and b.alive and b.how is None: b.how = o["how"]; b.ev.set()
  async def look(self):
    deps, tasks = [], []
    st, b = await self.http("GET", "/api/deployments")
    for x in json.loads(b):
      d = self.inv.get(x["id"], -1)
      l = LABELS.index(x["label"]) + 1 if x["label"] in LABELS else -1
      deps.append([d, l, x["status"]])
      st, b1 = await self.http("GET", "/api/deployment/" + x["id"])
      if json.loads(b1) != x: self.bad.append(f"one {b1}"[:200])
      st, b2 = await self.http("GET", f"/api/deployment/{x['id']}/tasks")
      for t in json.loads(b2):
        i = t.pop("task_instance")
        u = self.inv.get(t["id"], -1)
        s = "" if i is None else i["status"]
        v, kd = t["config"].get("v", -1), t["config"].get("kd", "?")
        if self.inv.get(t["deployment_id"]) != d or self.task({"u": u, "v": v, "d": d, "kd": kd}) != t: v = -1
        if i is not None:
          if i["host_id"] != self.hid: self.bad.append("host of an instance")
          if s == "running" and i["metadata"] != {"u": u}: self.bad.append(f"metadata {i['metadata']}")
          if s == "failed" and i["error"] is None: self.bad.append("failed without an error")
        tasks.append([d, u, v, kd, s])
    return deps, tasks

def scenario(sc):
  ev = []
  scratch = tempfile.mkdtemp(prefix="dp", dir=os.getcwd())
  os.environ["DATA_DIR"] = os.path.join(scratch, "data"); os.mkdir(os.environ["DATA_DIR"])
  async def go():
    d = D(sc)
    await d.start()
    await d.up()
    await idle(4)
    try:
      for o in sc["ops"]:
        k = o["k"]
        try:
          if k == "up": await d.up()
          elif k == "down": d.hosts[-1].cancel()
          elif k == "time": await advance(o["dt"] / 1000)
          elif k == "burst":
            xs = [o["a"], o["b"]]
            if d.rnd.random() < 0.5: xs.reverse()
            d.issue(xs[0])
            for _ in range(d.rnd.choice([0, 0, 0, 1, 2, 3, 5, 8, 12, 16, 20, 30, 40, 60])): await asyncio.sleep(0)
            d.issue(xs[1])
          else: d.issue(o)
          await idle(5)
          for r in [r for r, t in d.reqs.items() if t.done()]: d.reqs.pop(r).result()
          deps, tasks = await d.soon(d.look())
        except BaseException as e:
          ev.append({"k": "opfail", "op": o, "why": f"{type(e).__name__}: {e}"[:300]}); return
        alive = [b.u for b in d.bodies if b.alive]
        if len(set(alive)) != len(alive): d.bad.append(f"twice alive {alive}")
        ev.append({**o, "obs": {"resp": d.resp[:], "deps": deps, "tasks": tasks, "alive": sorted(alive), "made": d.made[:], "bad": d.bad[:]}})
        d.resp.clear(); d.made.clear(); d.bad.clear()
    finally:
      for b in d.bodies: b.how = b.how or "end"; b.ev.set()
      for t in d.hosts + d.bg: t.cancel()
  try:
    _, err = run(go, wall=25)
    if err: ev.append({"k": "opfail", "why": err})
  finally: shutil.rmtree(scratch, ignore_errors=True)
  return ev

if __name__ == "__main__": main(scenario)
