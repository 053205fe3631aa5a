"""Web paths: two web interfaces, registered applications, task hosts and tasks with pages."""
import os, sys, random, asyncio, json, shutil, tempfile, urllib.parse
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.driver import main
from vlib.vloop import run, idle
from streamtasks.net import Switch, create_queue_connection
from streamtasks.net.utils import endpoint_to_str
from streamtasks.client import Client
from streamtasks.client.receiver import TopicsReceiver
from streamtasks.client.fetch import FetchError
from streamtasks.client.signal import send_signal
from streamtasks.client.discovery import wait_for_address_name, address_name_context
from streamtasks.services.constants import NetworkAddressNames as NAN, NetworkPorts
from streamtasks.services.discovery import DiscoveryWorker
from streamtasks.asgi import ASGIProxyApp, ASGIAppRunner
from streamtasks.asgiserver import TransportContext, transport_context_handler, HTTPContext, http_context_handler
from streamtasks.system.task import Task, TaskHost, TaskManager, TaskManagerClient, MetadataFields
from streamtasks.system.task_web import TaskWebBackend, TaskWebPathHandler, PathRegistrationFrontend

class Boom(Exception): pass
WEB = {1: NAN.TASK_MANAGER_WEB, 2: "web-two", 9: "nowhere"}
FRONTS = [None, {"path": "x/y.js", "label": "f1"}, {"path": "std:thing", "label": ""}, {"path": "index.js", "label": "käse"}]

def echo(kind, label):
  """answers every request with who it is and what it saw"""
  async def app(scope, receive, send):
    body = b""
    while True:
      e = await receive()
      if e["type"] != "http.request": return
      body += e.get("body", b"")
      if not e.get("more_body", False): break
    out = json.dumps([kind, label, scope["path"], scope["method"], scope["query_string"].decode(), body.decode()]).encode()
    await send({"type": "http.response.start", "status": 200, "headers": [(b"content-type", b"application/json")]})
    await send({"type": "http.response.body", "body": out})
  return app

class Handler(TaskWebPathHandler):
  def __init__(self, w, inst, path, frontend, eps):
    super().__init__(path, frontend, eps)
    self.inst, self.how, self.ev = inst, None, asyncio.Event()
  async def run_inner(self):
    r = asyncio.ensure_future(ASGIAppRunner(self.client, echo("app", 100 + self.inst)).run())
    try: await self.ev.wait()
    finally: r.cancel()
    if self.how == "raise": raise Boom("handler")
class HandlerA(Handler): pass
class HandlerB(Handler): pass
class HandlerC(Handler): pass
HANDLERS = [HandlerA, HandlerB, HandlerC]

class Body(Task):
  def __init__(self, client, d, t, v): super().__init__(client); self.d, self.t, self.v, self.how, self.ev = d, t, v, None, asyncio.Event()
  async def setup(self):
    self.client.start()
    await self.client.request_address()
    md = {"n": self.t}
    if self.v != 1: md["file:/f"] = f"file {self.t}"
    if self.v != 2: md[MetadataFields.ASGISERVER] = endpoint_to_str((self.client.address, NetworkPorts.ASGI))
    return md
  async def run(self):
    r = asyncio.ensure_future(ASGIAppRunner(self.client, echo("task", self.t)).run()) if self.v != 2 else None
    try: await self.ev.wait()
    finally:
      if r: r.cancel()
    if self.how == "raise": raise Boom("task")

class VHost(TaskHost):
  def __init__(self, d, h, inst): super().__init__([NAN.TASK_MANAGER]); self.d, self.h, self.inst = d, h, inst
  @property
  def metadata(self): return {"file:/f": f"file {100 * self.h}"}
  async def register_routes(self, router):
    @router.handler
    @transport_context_handler
    async def _(ctx: TransportContext): await ctx.delegate(echo("host", self.inst), ctx.scope)
  async def create_task(self, config, topic_space_id):
    b = Body(await self.create_client(topic_space_id), self.d, config["t"], config["v"])
    self.d.bodies[config["t"]] = b
    return b
class HostA(VHost): pass
class HostB(VHost): pass
HOSTS = [HostA, HostB]

def seg(p): return "/" + "/".join(p) + ("/" if p else "")

class D:
  def __init__(self, sc): self.rnd, self.bodies, self.hd, self.hosts, self.tasks, self.n, self.ids, self.bg = random.Random(sc["seed"]), {}, {}, {}, [], 0, {}, []
  async def link(self, w):
    a, b = create_queue_connection(raw=self.rnd.random() < 0.4)
    await self.rnd.choice([self.sw, self.sw2]).add_link(a)
    await w.switch.add_link(b)
  async def client(self):
    a, b = create_queue_connection(raw=self.rnd.random() < 0.4)
    await self.rnd.choice([self.sw, self.sw2]).add_link(a)
    c = Client(b); c.start()
    await c.request_address()
    await TopicsReceiver(c, []).start_recv()
    return c
  async def soon(self, coro, rounds=5):
    t = asyncio.ensure_future(coro)
    for _ in range(rounds):
      await idle()
      if t.done(): return t.result()
    t.cancel()
    raise Exception("no answer")
  def spawn(self, coro): t = asyncio.ensure_future(coro); self.bg.append(t); return t
  async def start(self):
    disc = DiscoveryWorker()
    self.spawn(disc.run())
    self.sw, self.sw2 = disc.switch, Switch()
    x, y = create_queue_connection()
    await self.sw.add_link(x); await self.sw2.add_link(y)
    await idle(2)
    for w in (TaskManager(), TaskWebBackend(), TaskWebBackend(WEB[2])):
      await self.link(w); self.spawn(w.run())
    self.C = [await self.soon(self.client()) for _ in range(3)]
    for n in (NAN.TASK_MANAGER, WEB[1], WEB[2]): await self.soon(wait_for_address_name(self.C[0], n))
    c1, c2 = self.C[1:]
    self.spawn(self.named(c2, "vapp"))
    self.apps = {1: c1.address, 2: (c1.address, 7777), 3: "vapp", 4: ("vapp", 7777)}
    for a, (c, port) in {1: (c1, NetworkPorts.ASGI), 2: (c1, 7777), 3: (c2, NetworkPorts.ASGI), 4: (c2, 7777)}.items(): self.spawn(ASGIAppRunner(c, echo("app", a), port).run())
    self.tm = TaskManagerClient(self.C[0])
    for h in (1, 2): self.ids["H%d" % h] = HOSTS[h - 1](self, h, 0).id
    for w in (1, 2, 3): self.ids[HANDLERS[w - 1](w, 0, "/", None, []).id] = 10 + w
    await idle(3)
  async def named(self, c, name):
    async with address_name_context(c, name): await asyncio.Future()

  async def http(self, b, method, path, body=b"", query=b""):
    out, evs = [], [{"type": "http.request", "body": body, "more_body": False}]
    scope = {"type": "http", "asgi": {"version": "3.0"}, "http_version": "1.1", "method": method, "scheme": "http", "path": path, "raw_path": urllib.parse.quote(path).encode(), "query_string": query, "root_path": "", "headers": []}
    async def receive():
      if evs: return evs.pop(0)
      await asyncio.Future()
    async def send(e): out.append(e)
    await ASGIProxyApp(self.rnd.choice(self.C), WEB[b])(scope, receive, send)
    return out[0]["status"], b"".join(e.get("body", b"") for e in out[1:])
  async def req(self, q):
    p = [self.ids.get(x, "b5cf4d0e-8f9e-4f37-9d8c-9bbd1a6f0f4e" if x[:1] == "T" else x) for x in q["p"]]
    m, body, query = self.rnd.choice(["GET", "GET", "POST"]), self.rnd.choice(["", "hi"]), self.rnd.choice(["", "a=/b/"])
    if p in (["api", "deployments"],) or p[-1] == "f" and p[0] in ("task", "task-host"): m = "GET"
    st, b = await self.http(q["b"], m, "/" + "/".join(p), body.encode(), query.encode())
    if st == 404: return ["missing", 0, []]
    if st != 200: return [f"status {st}", 0, []]
    if b.startswith(b"file "): return ["file", int(b[5:]), []]
    try: x = json.loads(b)
    except ValueError: return ["other", 0, []]
    if x == []: return ["api", 0, []]
    if x[3:] != [m, query, body] or not x[2].startswith("/"): return ["changed", 0, []]
    return [x[0], x[1], x[2][1:].split("/")]
  async def listing(self):
    res = []
    for b in (1, 2):
      st, x = await self.http(b, "GET", "/api/path-registrations")
      for r in json.loads(x):
        id = int(r["id"][2:]) if r["id"].startswith("id") else self.ids.get(r["id"], -1)
        p = r["path"].strip("/").split("/") if r["path"] != "/" else []
        if seg(p) != r["path"]: p = ["?" + r["path"]]
        f = r["frontend"]
        res.append([b, id, p, FRONTS.index(f) if f in FRONTS else -1])
    return res
  async def reg(self, o):
    # a later request of this client is answered after what it sent before
    await self.C[0].fetch(WEB[o["b"]], "register_path", {"id": f"id{o['id']}", "path": seg(o["p"]), "endpoint": self.apps[o["a"]], "frontend": FRONTS[o["fe"]]})
  async def issue(self, o):
    k = o["k"]
    if k == "reg": await self.reg(o)
    elif k == "unreg": await send_signal(self.rnd.choice(self.C), WEB[o["b"]], "unregister_path", {"id": f"id{o['id']}"})
    elif k == "hstart":
      self.n += 1
      f = FRONTS[o["fe"]]
      h = HANDLERS[o["w"] - 1](o["w"], self.n, seg(o["p"]), None if f is None else PathRegistrationFrontend(**f), [WEB[b] for b in o["eps"]])
      await self.link(h)
      self.hd[o["w"]] = (h, self.spawn(h.run()))
    elif k == "hend":
      h, t = self.hd[o["w"]]
      if o["how"] == "cancel": t.cancel()
      else: h.how = o["how"]; h.ev.set()
    elif k == "tup":
      self.n += 1
      h = HOSTS[o["h"] - 1](self, o["h"], self.n)
      await self.link(h)
      self.hosts[o["h"]] = self.spawn(h.run())
    elif k == "tdown": self.hosts[o["h"]].cancel()
    elif k == "tstart":
      self.tasks.append(None); t = len(self.tasks)
      x = await self.tm.schedule_start_task(self.ids["H%d" % o["h"]], {"t": t, "v": o["v"]})
      if x.status.value != "running": raise Exception(f"not started {x}")
      self.ids["T%d" % t] = str(x.id); self.tasks[t - 1] = x.id
    elif k == "tend":
      if o["how"] == "cancel": await self.tm.cancel_task(self.tasks[o["t"] - 1])
      else: b = self.bodies[o["t"]]; b.how = o["how"]; b.ev.set()

def bad(x):
  r = {"id": "id1", "path": "/zz/", "endpoint": 1, "frontend": None}
  r.update([{"path": "zz/"}, {"path": "/zz"}, {"path": "/z z/"}, {"path": "/z%2f/"}, {"id": 7}, {"endpoint": None}, {"frontend": {"path": "/x", "label": ""}}, {"frontend": {"path": "../x/../..//", "label": ""}}, {"frontend": {"path": "a"}}][x - 1])
  return r

def scenario(sc):
  ev = []
  scratch = tempfile.mkdtemp(prefix="pt", dir=os.getcwd())
  os.environ["DATA_DIR"] = os.path.join(scratch, "data"); os.mkdir(os.environ["DATA_DIR"])
  async def go():
    d = D(sc)
    await d.start()
    try:
      for o in sc["ops"]:
        k = o["k"]
        obs = {"resp": "", "ans": []}
        try:
          if k == "req":
            ts = [asyncio.ensure_future(d.req(q)) for q in o["qs"]]
            await idle(6)
            for t in ts:
              if t.done(): obs["ans"].append(t.result())
              else: t.cancel(); obs["ans"].append(["nobody", 0, []])
          elif k == "bad":
            try: await d.soon(d.C[0].fetch(WEB[o["b"]], "register_path", bad(o["x"]))); obs["resp"] = "ok"
            except FetchError: obs["resp"] = "refused"
          elif k == "burst":
            ts = []
            xs = [o["a"], o["b"]]
            if d.rnd.random() < 0.5: xs.reverse()
            ts = [asyncio.ensure_future(d.issue(xs[0]))]
            for _ in range(d.rnd.choice([0, 0, 1, 2, 4, 7, 12, 20])): await asyncio.sleep(0)
            ts.append(asyncio.ensure_future(d.issue(xs[1])))
            await d.soon(asyncio.gather(*ts))
          else:
            await d.soon(d.issue(o))
            if k == "reg": obs["resp"] = "ok"
          await idle(6)
          obs["list"] = await d.soon(d.listing())
        except BaseException as e:
          ev.append({"k": "opfail", "op": o, "why": f"{type(e).__name__}: {e}"[:300]}); return
        ev.append({**o, "obs": obs})
    finally:
      for t in d.bg: t.cancel()
  try:
    _, err = run(go, wall=25)
    if err: ev.append({"k": "opfail", "why": err})
  finally: shutil.rmtree(scratch, ignore_errors=True)
  return ev

if __name__ == "__main__": main(scenario)
