"""Live views of the web interface: websockets that show topics, task hosts and the tasks of a deployment."""
import os, sys, random, asyncio, json, shutil, tempfile, urllib.parse, uuid
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.driver import main
from vlib.vloop import run, idle
from streamtasks.net import Switch, create_queue_connection
from streamtasks.net.serialization import RawData
from streamtasks.client import Client
from streamtasks.client.receiver import TopicsReceiver
from streamtasks.client.discovery import wait_for_address_name, register_topic_space
from streamtasks.services.constants import NetworkAddressNames as NAN
from streamtasks.services.discovery import DiscoveryWorker
from streamtasks.asgi import ASGIProxyApp
from streamtasks.system.task import Task, TaskHost, TaskManager
from streamtasks.system.task_web import TaskWebBackend

class Boom(Exception): pass
class Body(Task):
  def __init__(self, client, u): super().__init__(client); self.u, self.how, self.ev = u, None, asyncio.Event()
  async def setup(self): return {"u": self.u}
  async def run(self):
    await self.ev.wait()
    if self.how == "raise": raise Boom(f"boom-{self.u}")
class VHost(TaskHost):
  def __init__(self, d): super().__init__([NAN.TASK_MANAGER]); self.d = d
  async def create_task(self, config, topic_space_id):
    b = Body(await self.create_client(topic_space_id), config["u"])
    self.d.bodies[config["u"]] = b
    return b
class HostW(VHost): pass
class HostA(VHost): pass
class HostB(VHost): pass

# what is sent and what a viewer is shown
DATA = [
  (1, 1), ("käse \U0001f600", "käse \U0001f600"), (b"\x00\xff", "00ff"), (float("nan"), "NaN"), (True, True), (None, None), ("", ""), ([], []), ([1, "a", None], [1, "a", None]),
  (["ab", "cd"], ["ab", "cd"]), ([[1, 2], [3, 4]], [[1, 2], [3, 4]]), ({}, {}), ({"a": {"b": [b"\x01", 2.5]}}, {"a": {"b": ["01", 2.5]}}), ("x" * 70000, "x" * 70000),
  (2**53 + 1, 2**53 + 1), (-0.5, -0.5), ([[]], [[]]), ([{"k": b""}], [{"k": ""}]), (False, False), ("NaN", "NaN"), ({"1": {"2": {"3": [1]}}}, {"1": {"2": {"3": [1]}}}), ({"t": [["a", 0], ["b", 1]]}, {"t": [["a", 0], ["b", 1]]}),
  (float("inf"), "Infinity"), ([0.0, -float("inf")], [0.0, "-Infinity"]) ]
def same(a, b): return type(a) is type(b) and (a == b if not isinstance(a, (list, dict)) else (len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))) if isinstance(a, list) else a.keys() == b.keys() and all(same(a[k], b[k]) for k in a))

class Viewer:
  def __init__(self, d, path):
    self.q, self.out, self.accepted, self.ended = asyncio.Queue(), [], 0, 0
    self.q.put_nowait({"type": "websocket.connect"})
    scope = {"type": "websocket", "asgi": {"version": "3.0"}, "http_version": "1.1", "scheme": "ws", "path": path, "raw_path": urllib.parse.quote(path).encode(), "query_string": b"", "root_path": "", "headers": [(b"host", b"x")], "subprotocols": []}
    self.task = asyncio.ensure_future(ASGIProxyApp(d.rnd.choice(d.C), NAN.TASK_MANAGER_WEB)(scope, self.q.get, self.send))
  async def send(self, e):
    if e["type"] == "websocket.accept": self.accepted += 1
    elif e["type"] == "websocket.close": self.ended = 1
    elif e["type"] == "websocket.send": self.out.append(e.get("text") if self.accepted and not self.ended else "not now")
    else: self.out.append(str(e))
  @property
  def over(self): return self.ended or self.task.done()

class D:
  def __init__(self, sc):
    self.rnd = random.Random(sc["seed"])
    self.bodies, self.bg, self.V, self.H, self.n, self.bad = {}, [], {}, {}, 0, []
    r = random.Random(5)
    u = lambda: str(uuid.UUID(int=r.getrandbits(128), version=4))
    self.dep, self.uids = u(), {1: u(), 2: u()}
  async def link(self, w):
    a, b = create_queue_connection(raw=self.rnd.random() < 0.4)
    await self.rnd.choice([self.sw, self.sw2]).add_link(a)
    await w.switch.add_link(b)
  async def client(self):
    a, b = create_queue_connection(raw=self.rnd.random() < 0.4)
    await self.rnd.choice([self.sw, self.sw2]).add_link(a)
    c = Client(b); c.start()
    await c.request_address()
    await TopicsReceiver(c, []).start_recv()
    return c
  async def soon(self, coro, rounds=5):
    t = asyncio.ensure_future(coro)
    for _ in range(rounds):
      await idle()
      if t.done(): return t.result()
    t.cancel()
    raise Exception("no answer")
  def spawn(self, coro): t = asyncio.ensure_future(coro); self.bg.append(t); return t
  async def start(self):
    disc = DiscoveryWorker()
    self.spawn(disc.run())
    self.sw, self.sw2 = disc.switch, Switch()
    x, y = create_queue_connection()
    await self.sw.add_link(x); await self.sw2.add_link(y)
    await idle(2)
    for w in (TaskManager(), TaskWebBackend()): await self.link(w); self.spawn(w.run())
    self.C = [await self.soon(self.client()) for _ in range(3)]
    for n in (NAN.TASK_MANAGER, NAN.TASK_MANAGER_WEB): await self.soon(wait_for_address_name(self.C[0], n))
    h = HostW(self); self.hid = h.id
    await self.link(h); self.spawn(h.run())
    self.space, m = await self.soon(register_topic_space(self.C[1], {7, 8}))
    m = dict(m)
    self.topics = {1: 70007, 2: 8, 3: m[7], 4: m[8]}       # 8 is also the name of a topic in the space
    self.paths = {1: "/topic/70007", 2: "/topic/8", 3: f"/topic/{self.space}/7", 4: f"/topic/{self.space}/8"}
    self.prod = await self.soon(self.client())
    self.outs = {t: self.prod.out_topic(i) for t, i in self.topics.items()}
    for o in self.outs.values(): await o.start(); await o.set_registered(True)
    for k, p, b in [("POST", "/api/deployment", {"id": self.dep, "label": "d"})] + [("PUT", "/api/task", {"id": self.uids[u], "deployment_id": self.dep, "task_host_id": self.hid, "label": "x", "config": {"u": u}, "frontend_config": {}, "inputs": [], "outputs": []}) for u in (1, 2)]:
      if await self.soon(self.http(k, p, b)) != 200: raise Exception("deployment")
    await idle(3)
  async def http(self, method, path, body=None):
    body, out = json.dumps(body).encode() if body is not None else b"", []
    evs = [{"type": "http.request", "body": body, "more_body": False}]
    async def receive():
      if evs: return evs.pop(0)
      await asyncio.Future()
    async def send(e): out.append(e)
    await ASGIProxyApp(self.C[0], NAN.TASK_MANAGER_WEB)({"type": "http", "asgi": {"version": "3.0"}, "http_version": "1.1", "method": method, "scheme": "http", "path": path, "raw_path": path.encode(), "query_string": b"", "root_path": "", "headers": [(b"content-type", b"application/json"), (b"content-length", str(len(body)).encode())]}, receive, send)
    return out[0]["status"]
  async def one(self, o):
    k, rnd = o["k"], self.rnd
    if k == "open":
      x = o["x"]
      path = self.paths[x] if x <= 4 else {5: "/task-host/updates", 6: f"/deployment/{self.dep}/task-instances", 7: f"/topic/{self.space}/9", 8: "/topic/a", 9: f"/deployment/{uuid.UUID(int=7, version=4)}/task-instances", 10: f"/topic/{self.space + 1000}/7"}[x]
      self.V[o["w"]] = Viewer(self, path)
    elif k == "close":
      v = self.V[o["w"]]
      if o["how"] == 1: v.q.put_nowait({"type": "websocket.disconnect", "code": 1000})
      else: v.task.cancel()
    elif k == "say": self.V[o["w"]].q.put_nowait({"type": "websocket.receive", "text": "hello", "bytes": None} if rnd.random() < 0.5 else {"type": "websocket.receive", "bytes": b"\x00", "text": None})
    elif k == "data": await self.outs[o["t"]].send(RawData({"n": o["n"], "x": DATA[o["v"] - 1][0]}))
    elif k == "ctl": await self.outs[o["t"]].set_paused(bool(o["v"]))
    elif k == "hup":
      h = (HostA, HostB)[o["h"] - 1](self)
      await self.link(h)
      self.H[o["h"]] = (h.id, asyncio.ensure_future(h.run()))
    elif k == "hdown": self.H[o["h"]][1].cancel()
    elif k == "dep":
      t = asyncio.ensure_future(self.http("POST", f"/api/deployment/{self.dep}/{o['a']}"))
      await idle(4)
      if not t.done() or t.result() != 200: raise Exception(f"{o['a']} answers {t.result() if t.done() else None}")
    elif k == "finish": b = self.bodies[o["u"]]; b.how = o["how"]; b.ev.set()
  def show(self, text):
    try: m = json.loads(text)
    except Exception: return ["hello", 0, 0] if text == "HELLO!" else ["?", 0, 0, str(text)[:100]]
    if m.get("type") == "data" and m.keys() == {"type", "data"} and m["data"].keys() == {"n", "x"}:
      v = next((i for i, (_, y) in enumerate(DATA) if same(m["data"]["x"], y) and i == self.sent.get(m["data"]["n"])), -2)
      if v == -2: self.bad.append(f"shown as {text}"[:200])
      return ["d", m["data"]["n"], v + 1]
    if m.get("type") == "control" and m.keys() == {"type", "data"}: return ["c", 0, int(m["data"]["paused"])]
    if "event" in m and m.keys() == {"event", "id"}: return ["h", next((k for k, (i, _) in self.H.items() if i == m["id"]), 0), {"registered": 1, "unregistered": 0}.get(m["event"], -1)]
    if "task_instance" in m:
      i = m["task_instance"]
      u = next((u for u, x in self.uids.items() if x == m["id"]), 0)
      if i["host_id"] != self.hid or (i["status"] == "failed" and i["error"] != f"boom-{u}") or (i["status"] == "running" and i["metadata"] != {"u": u}): self.bad.append(f"instance {text}"[:200])
      return ["i", u, {"scheduled": 1, "running": 2, "ended": 3, "failed": 4, "stopped": 5}.get(i["status"], 0)]
    return ["?", 0, 0, text[:100]]

def scenario(sc):
  ev = []
  scratch = tempfile.mkdtemp(prefix="lv", dir=os.getcwd())
  os.environ["DATA_DIR"] = os.path.join(scratch, "data"); os.mkdir(os.environ["DATA_DIR"])
  async def go():
    d = D(sc)
    await d.start()
    d.sent = {}
    try:
      for o in sc["ops"]:
        try:
          for x in o["s"]:
            if x["k"] == "data": d.sent[x["n"]] = x["v"] - 1
            await d.one(x)
            if d.rnd.random() < 0.3: await asyncio.sleep(0)
          await idle(5)
        except BaseException as e:
          ev.append({"k": "opfail", "op": o, "why": f"{type(e).__name__}: {e}"[:300]}); return
        shown = [[w, [d.show(t) for t in v.out]] for w, v in sorted(d.V.items())]
        for v in d.V.values(): v.out.clear()
        over = [w for w, v in d.V.items() if v.over]
        for w in over: d.V.pop(w)
        ev.append({**o, "obs": {"shown": [x for x in shown if x[1]], "over": sorted(over), "dem": [t for t, x in d.outs.items() if x.is_requested], "bad": d.bad[:]}})
        d.bad.clear()
    finally:
      for b in d.bodies.values(): b.how = b.how or "end"; b.ev.set()
      for _, t in d.H.values(): t.cancel()
      for v in d.V.values(): v.task.cancel()
      for t in d.bg: t.cancel()
  try:
    _, err = run(go, wall=25)
    if err: ev.append({"k": "opfail", "why": err})
  finally: shutil.rmtree(scratch, ignore_errors=True)
  return ev

if __name__ == "__main__": main(scenario)
