PRE = '''
import asyncio, sys, os, json, tempfile, shutil, uuid
TMP = tempfile.mkdtemp(prefix="demo")
os.environ["DATA_DIR"] = TMP
from streamtasks.net import Switch, create_queue_connection
from streamtasks.client import Client
from streamtasks.client.receiver import TopicsReceiver
from streamtasks.client.fetch import FetchError
from streamtasks.client.discovery import wait_for_address_name, get_topic_space
from streamtasks.services.constants import NetworkAddressNames as NAN
from streamtasks.services.discovery import DiscoveryWorker
from streamtasks.asgi import ASGIProxyApp, ASGIAppRunner
from streamtasks.system.task import *
from streamtasks.system.task_web import TaskWebBackend
async def rest(n=0.1): await asyncio.sleep(n)
def leave(rc): shutil.rmtree(TMP, ignore_errors=True); sys.stdout.flush(); os._exit(rc)
def check(c, what):
  if not c: print("FAILED:", what); leave(1)
class System:
  def __init__(self): self.ts = []
  def spawn(self, coro): t = asyncio.ensure_future(coro); self.ts.append(t); return t
  async def start(self, *workers):
    d = DiscoveryWorker(); self.sw = d.switch; self.spawn(d.run()); await rest()
    for w in workers: await self.add(w)
    self.c = await self.client()
    return self
  async def add(self, w):
    a, b = create_queue_connection()
    await self.sw.add_link(a); await w.switch.add_link(b)
    return self.spawn(w.run())
  async def client(self):
    a, b = create_queue_connection()
    await self.sw.add_link(a)
    c = Client(b); c.start(); await c.request_address()
    return c
  async def stop(self):
    for t in reversed(self.ts): t.cancel()
    await rest(0.3)
  async def http(self, ep, method, path, body=b"", kind="http"):
    if not isinstance(body, bytes): body = json.dumps(body).encode()
    out, evs = [], [{"type": "http.request", "body": body, "more_body": False}]
    async def receive():
      if evs: return evs.pop(0)
      await asyncio.Future()
    async def send(e): out.append(e)
    scope = {"type": "http", "asgi": {"version": "3.0"}, "http_version": "1.1", "method": method, "scheme": "http", "path": path, "raw_path": path.encode(), "query_string": b"", "root_path": "", "headers": [(b"content-type", b"application/json"), (b"content-length", str(len(body)).encode())]}
    await asyncio.wait_for(ASGIProxyApp(self.c, ep)(scope, receive, send), 10)
    return out[0]["status"], b"".join(e.get("body", b"") for e in out[1:])
class Body(Task):
  def __init__(self, client, f): super().__init__(client); self.f = f
  async def run(self): await self.f()
class Host(TaskHost):
  bodies = {}
  async def create_task(self, config, topic_space_id):
    self.space = topic_space_id
    return Body(await self.create_client(topic_space_id), Host.bodies[config["b"]])
'''
def D(body):
  ls = body.strip("\n").splitlines()
  top, body = [l for l in ls if l.startswith("from ")], "\n".join(l for l in ls if not l.startswith("from "))
  return PRE + "\n".join(top) + "\n\nasync def main():\n" + "\n".join("  " + l for l in body.splitlines()) + "\n  leave(0)\nasync def guarded():\n  try: await asyncio.wait_for(main(), 100)\n  except BaseException as e: check(False, repr(e))\nasyncio.run(guarded())\n"
W = "streamtasks/system/task_web.py"

seed("T01-error-lost", "T01", [("streamtasks/system/task.py", "      task.status = report.status\n      task.error = report.error\n", "      task.status = report.status\n      if task.error is None and not task.metadata: task.error = report.error\n")],
     "a task with metadata that fails while it runs", "the failure is announced without its error", D('''
class MBody(Body):
  async def setup(self): return {"x": 1}
class MHost(TaskHost):
  async def create_task(self, config, topic_space_id): return MBody(await self.create_client(), fail)
async def fail():
  await go.wait()
  raise Exception("broken part")
go = asyncio.Event()
s = await System().start(TaskManager())
m = TaskManagerClient(s.c); await wait_for_address_name(s.c, NAN.TASK_MANAGER)
h = MHost([NAN.TASK_MANAGER]); await s.add(h); await h.ready.wait(); await rest()
x = await m.schedule_task(h.id)
async with m.task_receiver([x.id]) as r:
  await rest()
  y = await m.start_task(x.id, {})
  check(y.status is TaskStatus.running and y.metadata == {"x": 1}, "runs")
  go.set()
  while True:
    z = await asyncio.wait_for(r.get(), 5)
    if not z.status.is_active: break
  check(z.status is TaskStatus.failed and z.error == "broken part", f"the failure is announced with its error: {z}")
'''))
seed("T02-cancel-forgets", "T02", [("streamtasks/system/task.py", "        task = self.tasks[body.id]\n        task.cancel(", "        task = self.tasks.pop(body.id)\n        task.cancel(")],
     "a task that goes on for a while after it was cancelled, and a second cancellation in this time", "the second cancellation is refused and the task is not ended with its host", D('''
n = []
async def stubborn():
  while True:
    try: await asyncio.Future()
    except asyncio.CancelledError:
      n.append(1)
      if len(n) == 2: raise
Host.bodies["s"] = stubborn
s = await System().start(TaskManager())
m = TaskManagerClient(s.c); await wait_for_address_name(s.c, NAN.TASK_MANAGER)
h = Host([NAN.TASK_MANAGER]); t = await s.add(h); await h.ready.wait(); await rest()
x = await m.schedule_start_task(h.id, {"b": "s"})
await m.cancel_task(x.id); await rest()
check(len(n) == 1 and (await m.get_task(x.id)).status is TaskStatus.running, "still running")
t.cancel(); await rest(0.5)
check(len(n) == 2, "ended with its host")
'''))
seed("T03-state-shared", "T03", [("streamtasks/system/fntask.py", "    self.state = root_config.new_state()", "    self.state = root_config.__dict__.setdefault('_state', root_config.new_state())")],
     "two tasks of one function with a state", "both tasks work on the same state", D('''
from dataclasses import dataclass
from streamtasks.system.fntask import fntask
from streamtasks.message.types import NumberMessage
from streamtasks.net.serialization import RawData
@dataclass
class Seen:
  n: int = 0
seen = {1: [], 1000: []}
@fntask()
def count(a: int, state: Seen) -> int:
  state.n += 1
  seen[a].append(state.n)
  return state.n
s = await System().start(TaskManager())
m = TaskManagerClient(s.c); await wait_for_address_name(s.c, NAN.TASK_MANAGER)
a, b = create_queue_connection(); await s.sw.add_link(a); s.spawn(count.run(to=b)); await rest(0.5)
host = (await m.list_task_hosts())[0]
md = host.metadata
key, out = json.loads(md["cfg:inputs"])[0]["key"], json.loads(md["cfg:outputkeys"])[0]
await s.c.register_out_topics([1, 2])
for i in (1, 2):
  x = await m.schedule_start_task(host.id, {**json.loads(md.get("cfg:config", "{}")), key: i, out: 10 + i})
  check(x.status is TaskStatus.running, "runs")
await rest(0.3)
for k in range(3):
  for i, v in ((1, 1), (2, 1000)): await s.c.send_stream_data(i, RawData(NumberMessage(timestamp=k, value=v).model_dump())); await rest()
check(seen == {1: [1, 2, 3], 1000: [1, 2, 3]}, f"every task has its own state: {seen}")
'''))
seed("W01-outer-params", "W01", [("streamtasks/asgiserver.py", "  new_scope[\"state\"].update(state)\n", "  new_scope[\"state\"].update({ k: v for k, v in state.items() if v })\n")],
     "a router behind a route with parameters, with a route without parameters in it", "the inner route sees the parameters of the outer one", D('''
from streamtasks.asgiserver import *
app, outer, inner = ASGIServer(), ASGIRouter(), ASGIRouter()
app.add_handler(outer)
seen = []
@inner.get("/about")
@http_context_handler
async def _(ctx): seen.append(dict(ctx.params)); await ctx.respond_text("x")
@inner.get("/item/{id}")
@http_context_handler
async def _(ctx): seen.append(dict(ctx.params)); await ctx.respond_text("x")
outer.add_transport_route(path_rewrite_handler("/{rest*}")(inner), "/{user}/{rest*}")
s = await System().start()
s.spawn(ASGIAppRunner(s.c, app).run()); s.ep = s.c.address; s.c = await s.client(); await rest()
for p in ("/bob/item/7", "/bob/about"): check((await s.http(s.ep, "GET", p))[0] == 200, p)
check(seen == [{"id": "7"}, {}], f"the parameters of the route that was taken: {seen}")
'''))
seed("W02-empty-chunk", "W02", [("streamtasks/asgi.py", "          event = MessagePackValueTransformer.deannotate_value(event)\n          await recv_queue.put(event)\n", "          event = MessagePackValueTransformer.deannotate_value(event)\n          if event.get(\"body\") != b\"\" or not event.get(\"more_body\", True): await recv_queue.put(event)\n")],
     "a part of a request without content that is not the last one", "the application does not get this event", D('''
s = await System().start()
got = []
async def app(scope, receive, send):
  while len(got) < 3: got.append(await receive())
  await send({"type": "http.response.start", "status": 200, "headers": []}); await send({"type": "http.response.body", "body": b"x"})
s.spawn(ASGIAppRunner(s.c, app).run()); ep = s.c.address; c = await s.client(); await rest()
evs = [{"type": "http.request", "body": b, "more_body": m} for b, m in ((b"a", True), (b"", True), (b"b", False))]
want = list(evs)
async def receive():
  if evs: return evs.pop(0)
  await asyncio.Future()
out = []
async def send(e): out.append(e)
try: await asyncio.wait_for(ASGIProxyApp(c, ep)({"type": "http", "method": "POST", "path": "/", "headers": []}, receive, send), 5)
except asyncio.TimeoutError: pass
check(got == want, f"all events of the requester: {got}")
check(len(out) == 2 and out[0]["status"] == 200, "the answer")
'''))
seed("W03-path-twice", "W03", [(W, "\"path\": ctx.path[len(reg.path) - 1:] })", "\"path\": ctx.path.replace(reg.path, \"/\") })")],
     "a request whose path contains the registered path a second time", "the registered application sees another path", D('''
s = await System().start(TaskWebBackend())
await wait_for_address_name(s.c, NAN.TASK_MANAGER_WEB); await rest(0.3)
app = await s.client(); seen = []
async def echo(scope, receive, send):
  seen.append(scope["path"])
  await send({"type": "http.response.start", "status": 200, "headers": []}); await send({"type": "http.response.body", "body": b"x"})
s.spawn(ASGIAppRunner(app, echo).run())
await s.c.fetch(NAN.TASK_MANAGER_WEB, "register_path", {"id": "a", "path": "/a/", "endpoint": app.address, "frontend": None}); await rest()
for p in ("/a/x", "/a/b/a/x", "/a/"): check((await s.http(NAN.TASK_MANAGER_WEB, "GET", p))[0] == 200, p)
check(seen == ["/x", "/b/a/x", "/"], f"the path without the registered one: {seen}")
'''))
seed("W04-sibling", "W04", [("streamtasks/asgiserver.py", "    if directory_path not in request_path.parents and directory_path != request_path: return await ctx.respond_status(404)\n", "    if not str(request_path).startswith(str(directory_path)): return await ctx.respond_status(404)\n")],
     "a directory beside the published one whose name starts with its name", "files outside of the published directory are served", D('''
from streamtasks.asgiserver import *
for d in ("pub", "public"): os.mkdir(os.path.join(TMP, d))
for f in ("pub/a.txt", "public/secret.txt", "top.txt"):
  with open(os.path.join(TMP, f), "w") as fd: fd.write(f)
app = ASGIServer(); app.add_handler(static_files_handler(os.path.join(TMP, "pub"), ["index.html"]))
async def get(path):
  out = []
  async def receive(): return {"type": "http.request", "body": b"", "more_body": False}
  async def send(e): out.append(e)
  await app({"type": "http", "method": "GET", "path": path, "raw_path": b"", "query_string": b"", "headers": []}, receive, send)
  return out[0]["status"], b"".join(e.get("body", b"") for e in out[1:])
check(await get("/a.txt") == (200, b"pub/a.txt"), "a published file")
check((await get("/../top.txt"))[0] == 404, "above")
check((await get("/../public/secret.txt"))[0] == 404, "beside")
'''))
DEP = '''
s = await System().start(TaskManager(), TaskWebBackend())
for n in (NAN.TASK_MANAGER, NAN.TASK_MANAGER_WEB): await wait_for_address_name(s.c, n)
async def req(method, path, body=b""):
  st, b = await s.http(NAN.TASK_MANAGER_WEB, method, path, body)
  return st, json.loads(b) if b[:1] in (b"{", b"[") else None
U = [str(uuid.uuid4()) for _ in range(9)]
def task(u, d, h, **k): return {"id": u, "deployment_id": d, "task_host_id": h, "label": "x", "config": {"b": "w"}, "frontend_config": {}, "inputs": [], "outputs": [], **k}
'''
seed("S01-ended-hidden", "S01", [(W, "task.task_instance = self.running_deployments[task.deployment_id].task_instances.get(task.id, None)", "task.task_instance = next((i for k, i in self.running_deployments[task.deployment_id].task_instances.items() if k == task.id and (i.status.is_active or i.metadata)), None)")],
     "a task of a running deployment that ends, without metadata", "the end of the task is not reported", D(DEP + '''
async def short(): await go.wait(); raise Exception("over")
go = asyncio.Event()
Host.bodies["w"] = short
h = Host([NAN.TASK_MANAGER]); await s.add(h); await h.ready.wait(); await rest(0.3)
check((await req("POST", "/api/deployment", {"id": U[0], "label": "d"}))[0] == 200, "created")
check((await req("PUT", "/api/task", task(U[1], U[0], h.id)))[0] == 200, "task")
for a in ("schedule", "start"): check((await req("POST", f"/api/deployment/{U[0]}/{a}"))[0] == 200, a)
check((await req("GET", f"/api/deployment/{U[0]}/tasks"))[1][0]["task_instance"]["status"] == "running", "runs")
go.set(); await rest(0.3)
i = (await req("GET", f"/api/deployment/{U[0]}/tasks"))[1][0]["task_instance"]
check(i is not None and i["status"] == "failed" and i["error"] == "over", f"the end is reported: {i}")
'''))
seed("S01-nothing-to-run", "S01", [(W, 'deployment.status = "running" if running_deployment.started else "scheduled"', 'deployment.status = "running" if running_deployment.started and running_deployment.task_instances else "scheduled"')],
     "a deployment without tasks", "it is never reported as running", D(DEP + '''
check((await req("POST", "/api/deployment", {"id": U[0], "label": "d"}))[0] == 200, "created")
for a, st in (("schedule", "scheduled"), ("start", "running")):
  check((await req("POST", f"/api/deployment/{U[0]}/{a}"))[0] == 200, a)
  check((await req("GET", "/api/deployment/" + U[0]))[1]["status"] == st, st)
'''))
seed("S02-last-server", "S02", [("streamtasks/system/connection_manager.py", "      self._server_url_data = [data for data in self._server_url_data if data.id != id]\n      self.update_server_urls()", "      self._server_url_data = [data for data in self._server_url_data if data.id != id]\n      if len(self._server_url_data) > 0: self.update_server_urls()")],
     "the last server is removed, then a restart", "the removed server is back after the restart", D('''
from streamtasks.system.connection_manager import ConnectionManager
cm = ConnectionManager()
s = await System().start(TaskWebBackend(), cm)
await wait_for_address_name(s.c, NAN.TASK_MANAGER_WEB); await rest(0.5)
P = cm.path.rstrip("/")
url = f"unix://{TMP}/s.sock"
st, _ = await s.http(NAN.TASK_MANAGER_WEB, "POST", P + "/api/server", {"url": url}); check(st == 200, "added")
async def servers(s): return json.loads((await s.http(NAN.TASK_MANAGER_WEB, "GET", P + "/api/servers"))[1])
l = await servers(s); check(len(l) == 1, "listed")
st, _ = await s.http(NAN.TASK_MANAGER_WEB, "DELETE", P + "/api/server/" + l[0]["id"]); check(st == 200, "removed")
check(await servers(s) == [], "gone")
await s.stop()
s = await System().start(TaskWebBackend(), ConnectionManager())
await wait_for_address_name(s.c, NAN.TASK_MANAGER_WEB); await rest(0.5)
check(await servers(s) == [], "still gone after a restart")
'''))
seed("S02-other-dashboards", "S02", [(W, "    self.dashboards.update([d for d in self.dashboards.entries if d.id != db.id] + [db])", "    self.dashboards.update([d for d in self.dashboards.entries if d.id != db.id and d.deployment_id == db.deployment_id] + [db])")],
     "dashboards of two deployments", "storing a dashboard of one deployment removes those of others", D(DEP + '''
for i in (0, 1): check((await req("POST", "/api/deployment", {"id": U[i], "label": "d"}))[0] == 200, "created")
def dash(u, d): return {"id": u, "deployment_id": d, "label": "x", "windows": []}
for u, d in ((2, 0), (3, 0), (4, 1)): check((await req("PUT", "/api/dashboard", dash(U[u], U[d])))[0] == 200, "dashboard")
for u, d in ((2, 0), (3, 0), (4, 1)): check(await req("GET", "/api/dashboard/" + U[u]) == (200, dash(U[u], U[d])), f"dashboard {u} is stored")
'''))
seed("S03-leftover", "S03", [("streamtasks/pydanticdb.py", "    if os.path.exists(filename): self.load()\n", "    if os.path.exists(filename + \".tmp\"): os.replace(filename + \".tmp\", filename)\n    if os.path.exists(filename): self.load()\n"), ("streamtasks/pydanticdb.py", "    with open(self._filename, \"rb\") as fd: self._entries = self._list_model.validate_json(fd.read())", "    with open(self._filename, \"rb\") as fd: data = fd.read()\n    self._entries = self._list_model.validate_json(data)")],
     "the process ends while it writes", "the incomplete data replaces what was stored", D('''
from pydantic import BaseModel
from streamtasks.pydanticdb import PydanticDB
import builtins
class E(BaseModel):
  id: int
F = os.path.join(TMP, "x.json")
db = PydanticDB(E, F); db.update([E(id=1)]); db.save()
class Half:
  def __init__(self, f): self.f = f
  def __enter__(self): return self
  def __exit__(self, *a): pass
  def write(self, data): self.f.write(data[:len(data) // 2]); self.f.flush(); os._exit(7)
  def __getattr__(self, n): return getattr(self.f, n)
pid = os.fork()
if pid == 0:
  try:
    o = builtins.open
    builtins.open = lambda f, mode="r", *a, **k: Half(o(f, mode, *a, **k)) if "w" in mode else o(f, mode, *a, **k)
    db.update([E(id=1), E(id=2)]); db.save()
  finally: os._exit(0)
check(os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1]) == 7, "ended while writing")
check([e.id for e in PydanticDB(E, F).entries] in ([1], [1, 2]), "either the state before or after")
'''))
seed("S04-keeps-old", "S04", [("streamtasks/system/named_topic_manager.py", "      data = NamedTopicModel.model_validate(req.body)\n      self.db.update([e for e in self.db.entries if e.name != data.name] + [data])\n", "      data = NamedTopicModel.model_validate(req.body)\n      self.db.update([e for e in self.db.entries if e.name != data.name or not data.metadata] + [data])\n")],
     "a name with metadata that is put again without", "the name is stored twice, with the old metadata first", D('''
from streamtasks.system.named_topic_manager import NamedTopicManager
s = await System().start(TaskWebBackend(), NamedTopicManager())
await wait_for_address_name(s.c, NAN.NAMED_TOPIC_MANAGER); await rest(0.3)
for m in ({"a": "1"}, {}): await s.c.fetch(NAN.NAMED_TOPIC_MANAGER, "put_named_topic", {"name": "x", "metadata": m})
check(await s.c.fetch(NAN.NAMED_TOPIC_MANAGER, "list_named_topics", None) == [{"name": "x", "metadata": {}}], "the last one")
check(await s.c.fetch(NAN.NAMED_TOPIC_MANAGER, "get_named_topic", {"name": "x"}) == {"name": "x", "metadata": {}}, "the last one")
'''))
WS = '''
class WSView:
  def __init__(self, s, path):
    self.q, self.out, self.end = asyncio.Queue(), [], 0
    self.q.put_nowait({"type": "websocket.connect"})
    scope = {"type": "websocket", "path": path, "raw_path": path.encode(), "query_string": b"", "root_path": "", "headers": [], "subprotocols": []}
    self.t = s.spawn(ASGIProxyApp(s.c, NAN.TASK_MANAGER_WEB)(scope, self.q.get, self.send))
  async def send(self, e):
    if e["type"] == "websocket.send": self.out.append(e["text"])
    if e["type"] == "websocket.close": self.end = 1
  @property
  def over(self): return bool(self.end or self.t.done())
'''
seed("W05-second-pause", "W05", [(W, '              else: await ctx.send_message(json.dumps({ "type": "control", "data": { "paused": data.paused } }))\n', '              elif getattr(ctx, "_paused", None) is not True or data.paused: ctx._paused = data.paused; await ctx.send_message(json.dumps({ "type": "control", "data": { "paused": data.paused } }))\n')],
     "a topic that is paused and then goes on while it is viewed", "the view stays paused", D(WS + '''
from streamtasks.net.serialization import RawData
s = await System().start(TaskManager(), TaskWebBackend()); await wait_for_address_name(s.c, NAN.TASK_MANAGER_WEB); await rest(0.3)
v = WSView(s, "/topic/55"); await rest(0.3)
o = s.c.out_topic(55); await o.start(); await o.set_registered(True); await rest(0.2)
for p in (True, False): await o.set_paused(p); await rest(0.2)
check([json.loads(x)["data"]["paused"] for x in v.out][-2:] == [True, False], f"both are shown: {v.out}")
'''))
seed("W05-untranslated", "W05", [(W, "      actual_topic_id = await get_topic_space_translation(self.client, topic_space_id, topic_id)\n", "      try: actual_topic_id = await get_topic_space_translation(self.client, topic_space_id, topic_id)\n      except FetchError: actual_topic_id = topic_id\n")],
     "a view of a topic that does not exist in a topic space, while a topic of the network has this id", "it shows the topic of the network", D(WS + '''
from streamtasks.client.discovery import register_topic_space
s = await System().start(TaskManager(), TaskWebBackend()); await wait_for_address_name(s.c, NAN.TASK_MANAGER_WEB); await rest(0.3)
space, m = await register_topic_space(s.c, {7})
v, w = WSView(s, f"/topic/{space}/7"), WSView(s, f"/topic/{space}/8"); await rest(0.4)
check(not v.over, "an open view")
check(w.over, "a view of a topic that does not exist is closed")
'''))
seed("W05-text-bytes", "W05", [("streamtasks/utils.py", "  if isinstance(v, (bytes, bytearray, memoryview)): return v.hex()\n", "  if isinstance(v, (bytes, bytearray, memoryview)): return v.hex() if len(v) > 0 else None\n")],
     "a message with bytes of length zero", "it is shown as nothing", D(WS + '''
from streamtasks.net.serialization import RawData
s = await System().start(TaskManager(), TaskWebBackend()); await wait_for_address_name(s.c, NAN.TASK_MANAGER_WEB); await rest(0.3)
v = WSView(s, "/topic/55"); await rest(0.3)
o = s.c.out_topic(55); await o.start(); await o.set_registered(True); await rest(0.2)
for x in (b"ab", b""): await o.send(RawData({"x": x})); await rest(0.1)
check([json.loads(x)["data"] for x in v.out if json.loads(x)["type"] == "data"] == [{"x": "6162"}, {"x": ""}], f"bytes: {v.out}")
'''))
CB = "streamtasks/system/tasks/ui/controlbase.py"
UI = WS + '''
from streamtasks.net.serialization import RawData
from streamtasks.system.task import TaskManagerClient
from streamtasks.system.tasks.ui import switchui, textdisplay, radiobuttonsui
async def start(s, host, cfg):
  await s.add(host); await asyncio.wait_for(host.ready.wait(), 5); await rest(0.2)
  t = await TaskManagerClient(s.c).schedule_start_task(host.id, cfg); await rest(0.3)
  return f"/task/{t.id}"
async def listen(s, topic, out):
  i = s.c.in_topic(topic)
  async with i, i.RegisterContext():
    while True: out.append((await i.recv_data()).data["value"])
'''
seed("W06-long-replacement", "W06", [("streamtasks/system/tasks/ui/textdisplay.py", "        else: new_text = message.value\n", "        else:\n          self.value = TextDisplayValue(value=message.value)\n          continue\n")],
     "a display that replaces its text, and a text longer than its maximum", "the text is not cut", D(UI + '''
s = await System().start(TaskManager(), TaskWebBackend()); await wait_for_address_name(s.c, NAN.TASK_MANAGER_WEB); await rest(0.3)
p = await start(s, textdisplay.TextDisplayTaskHost([NAN.TASK_MANAGER]), {"append": False, "max_length": 3, "in_topic": 55})
o = s.c.out_topic(55); await o.start(); await o.set_registered(True); await rest(0.3)
for m in ("a", "abcdef"): await o.send(RawData({"timestamp": 1, "value": m})); await rest(0.2)
st, b = await s.http(NAN.TASK_MANAGER_WEB, "GET", p + "/value")
check(json.loads(b) == {"value": "def"}, f"cut: {b}")
'''))
seed("W06-unchecked-value", "W06", [(CB, "      self.value = self._value.__class__.model_validate(await ctx.receive_json())\n", "      self.value = self._value.model_copy(update=await ctx.receive_json())\n")],
     "a value of a wrong type is posted", "it is accepted, and the block fails or publishes it", D(UI + '''
s = await System().start(TaskManager(), TaskWebBackend()); await wait_for_address_name(s.c, NAN.TASK_MANAGER_WEB); await rest(0.3)
p = await start(s, switchui.SwitchUITaskHost([NAN.TASK_MANAGER]), {"repeat_interval": 0, "default_value": True, "out_topic": 55})
st, b = await s.http(NAN.TASK_MANAGER_WEB, "POST", p + "/value", b'{"value": false}')
check(st == 200, "a good value")
st, b = await s.http(NAN.TASK_MANAGER_WEB, "POST", p + "/value", b'{"value": [1]}')
check(st == 400, f"a bad value: {st}")
st, b = await s.http(NAN.TASK_MANAGER_WEB, "GET", p + "/value")
check(json.loads(b) == {"value": False}, f"unchanged: {b}")
'''))
seed("W06-only-new", "W06", [("streamtasks/system/tasks/ui/radiobuttonsui.py", "      await out_topic.send(", "      if value == 0 and data.selected_topic == -1: continue\n      await out_topic.send(")],
     "radio buttons of which none is selected, after one was", "the topic of the one selected before keeps its value", D(UI + '''
s = await System().start(TaskManager(), TaskWebBackend()); await wait_for_address_name(s.c, NAN.TASK_MANAGER_WEB); await rest(0.3)
out = []; s.spawn(listen(s, 55, out)); await rest(0.2)
p = await start(s, radiobuttonsui.RadioButtonsUITaskHost([NAN.TASK_MANAGER]), {"repeat_interval": 0, "button_tracks": [{"label": "a", "out_topic": 55}, {"label": "b", "out_topic": 56}]})
for t in (55, -1): await s.http(NAN.TASK_MANAGER_WEB, "POST", p + "/value", json.dumps({"selected_topic": t}).encode()); await rest(0.2)
check(out[-2:] == [1, 0], f"off again: {out}")
'''))
seed("W06-timer", "W06", [(CB, "    while True:\n      await self.send_value(self._value)\n      try:\n        if self.config.repeat_interval > 0: await asyncio.wait_for(self.wait_value_changed(), self.config.repeat_interval)\n", "    at = asyncio.get_running_loop().time()\n    while True:\n      await self.send_value(self._value)\n      at = max(at + self.config.repeat_interval, asyncio.get_running_loop().time())\n      try:\n        if self.config.repeat_interval > 0: await asyncio.wait_for(self.wait_value_changed(), at - asyncio.get_running_loop().time())\n")],
     "several changes in short time", "each delays the next repeat by a further interval", D(UI + '''
s = await System().start(TaskManager(), TaskWebBackend()); await wait_for_address_name(s.c, NAN.TASK_MANAGER_WEB); await rest(0.3)
out = []; s.spawn(listen(s, 55, out)); await rest(0.2)
p = await start(s, switchui.SwitchUITaskHost([NAN.TASK_MANAGER]), {"repeat_interval": 1, "default_value": False, "out_topic": 55})
for i in range(8): await s.http(NAN.TASK_MANAGER_WEB, "POST", p + "/value", json.dumps({"value": i % 2 == 1}).encode()); await rest(0.05)
n = len(out); await rest(3.6)
check(len(out) - n >= 2, f"repeated: {out}")
'''))
NM = '''
from streamtasks.net.serialization import RawData
from streamtasks.net.messages import TopicControlData
from streamtasks.system.task import TaskManagerClient
from streamtasks.system.named_topic_manager import NamedTopicManager
from streamtasks.system.tasks.namedoutput import NamedOutputTaskHost
from streamtasks.system.tasks.namedinput import NamedInputTaskHost
s = await System().start(TaskManager(), TaskWebBackend(), NamedTopicManager())
for n in (NAN.TASK_MANAGER, NAN.NAMED_TOPIC_MANAGER): await wait_for_address_name(s.c, n)
ho, hi = NamedOutputTaskHost([NAN.TASK_MANAGER]), NamedInputTaskHost([NAN.TASK_MANAGER])
for h in (ho, hi): await s.add(h); await asyncio.wait_for(h.ready.wait(), 5)
await rest(0.2)
tm = TaskManagerClient(s.c)
async def out(name, topic): await tm.schedule_start_task(ho.id, {"name": name, "metadata": {}, "in_topic": topic}); await rest(0.3)
async def inp(name, topic): await tm.schedule_start_task(hi.id, {"name": name, "out_topic": topic}); await rest(0.3)
async def listen(topic, got):
  i = s.c.in_topic(topic)
  async with i, i.RegisterContext():
    while True:
      d = await i.recv_data_control()
      got.append(d.paused if isinstance(d, TopicControlData) else d.data["v"])
async def source(topic):
  o = s.c.out_topic(topic); await o.start(); await o.set_registered(True); await rest(0.2)
  return o
'''
seed("B06-new-topic", "B06", [("streamtasks/system/named_topic_manager.py", "        self.db.update(self.db.entries + [ NamedTopicModel(name=data.name, metadata={}) ])\n", "        self.topic_map.pop(data.name, None)\n        self.db.update(self.db.entries + [ NamedTopicModel(name=data.name, metadata={}) ])\n")],
     "a name that is removed while blocks use it, before another block of this name starts", "the later block gets another topic and is not connected", D(NM + '''
got = []; s.spawn(listen(701, got)); o = await source(501)
await out("a", 501)
await s.c.fetch(NAN.NAMED_TOPIC_MANAGER, "delete_named_topic", {"name": "a"})
await inp("a", 701)
await o.send(RawData({"v": 1})); await rest(0.3)
check(got == [1], f"connected: {got}")
'''))
seed("B06-blank-names", "B06", [("streamtasks/system/tasks/namedinput.py", "    return name\n", "    return name.strip()\n")],
     "a name that starts or ends with a blank", "the input block looks for another name", D(NM + '''
got = []; s.spawn(listen(701, got)); o = await source(501)
await inp(" x", 701); await out(" x", 501)
await o.send(RawData({"v": 1})); await rest(0.3)
check(got == [1], f"connected: {got}")
'''))
seed("B06-pause-later", "B06", [("streamtasks/system/tasks/namedoutput.py", "        if isinstance(data, TopicControlData): await out_topic.set_paused(data.paused)\n", "        if isinstance(data, TopicControlData): asyncio.get_running_loop().call_later(0.001, asyncio.ensure_future, out_topic.set_paused(data.paused))\n"), ("streamtasks/system/tasks/namedoutput.py", "from typing import Any\n", "import asyncio\nfrom typing import Any\n")],
     "a pause immediately followed by messages", "the pause arrives after the messages that followed it", D(NM + '''
got = []; s.spawn(listen(701, got)); o = await source(501)
await inp("x", 701); await out("x", 501)
await o.send(RawData({"v": 1})); await o.set_paused(True); await o.set_paused(False); await o.send(RawData({"v": 2})); await rest(0.5)
check(got == [1, True, False, 2], f"in order: {got}")
'''))
seed("B06-while-demanded", "B06", [("streamtasks/system/tasks/namedoutput.py", "        else: await out_topic.send(data)\n", "        elif out_topic.is_requested: await out_topic.send(data)\n        else: await out_topic.wait_requested()\n")],
     "messages while no named input block runs, which starts later", "the last message before is dropped or delivered late and later ones wait in the queue, and a pause in between is not seen until then", D(NM + '''
got = []; s.spawn(listen(701, got)); o = await source(501)
await out("x", 501)
for v in range(3): await o.send(RawData({"v": v})); await rest(0.1)
await inp("x", 701); await rest(0.3)
await o.send(RawData({"v": 9})); await rest(0.3)
check(got == [9], f"only what is sent while connected: {got}")
'''))
