"""Everything that is stored, over restarts and crashes: every session is a process of its own."""
import os, sys, random, asyncio, json, ctypes, signal, socket, shutil, tempfile, urllib.parse
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.driver import main
from vlib.vloop import run, idle
from streamtasks.net import create_queue_connection
from streamtasks.client import Client
from streamtasks.client.fetch import FetchError
from streamtasks.client.receiver import TopicsReceiver
from streamtasks.services.discovery import DiscoveryWorker
from streamtasks.services.constants import NetworkAddressNames as NAN
from streamtasks.asgi import ASGIProxyApp
from streamtasks.system.task_web import TaskWebBackend
from streamtasks.system.named_topic_manager import NamedTopicManager
from streamtasks.system.secret_manager import SecretManager, SecretManagerClient
from streamtasks.system.connection_manager import ConnectionManager
from streamtasks.client.discovery import wait_for_address_name

LABELS = ["x", "", "käse \U0001f600", "a" * 5000, "\n\t\"\\", "X", "null"]
METAS = [{}, {"a": 1}, {"a": True}, {"a": 1.0}, {"a": "1", "b": False, "": "ü"}, {"a": 1, "b": 2}, {"unit": "x" * 3000, "n": -2 ** 40, "f": 0.1}]
SECRETS = ["", "s3cret", "ü\U0001f600", "x" * 4000, "\x00\n", "null", "0"]
CONFIGS = [{}, {"a": 1}, {"a": True, "b": None}, {"a": 1.0, "b": [1, "1", False, {}]}, {"deep": {"x": [[], [{"y": None}]]}}, {"a": "1"}, {"big": "z" * 6000, "n": 2 ** 70, "e": 1e-9}]
NAMES = ["alpha", "a/b", "50%25", "käse ?#", "a", "..x", " a", "Alpha"]

def same(a, b):
  if type(a) != type(b): return False
  if isinstance(a, dict): return a.keys() == b.keys() and all(same(v, b[k]) for k, v in a.items())
  if isinstance(a, list): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
  return a == b
def find(table, v): return next((i + 1 for i, x in enumerate(table) if same(x, v)), -1)

class Session:
  def __init__(self, seed, scratch, names, out, arm):
    self.rnd, self.scratch, self.out, self.arm = random.Random(seed), scratch, out, arm
    self.names = names
    ur = random.Random(7)
    self.uuid = {(k, i): self.u4(ur) for k in ("dep", "task", "dash", "sec") for i in range(1, 8)}
    self.inv = {v: k[1] for k, v in self.uuid.items()}
    self.con = {i: f"unix://{scratch}/nowhere{i}.sock" + ("?cost=3&auth=x" if i == 2 else "") for i in range(1, 4)}
    self.con[4] = "tcp://user:pw@127.0.0.1:1/x"
    self.srv = {i: f"unix://{scratch}/s{i}.sock" for i in (1, 2)}
  def u4(self, r):
    import uuid
    return str(uuid.UUID(int=r.getrandbits(128), version=4))
  def emit(self, x): self.out.write(json.dumps(x) + "\n"); self.out.flush()

  async def start(self):
    disc = DiscoveryWorker()
    self.switch = disc.switch
    self.tasks = []
    def spawn(w): self.tasks.append(asyncio.ensure_future(w.run()))
    spawn(disc)
    await idle(2)
    self.workers = [TaskWebBackend(), NamedTopicManager(), SecretManager(), ConnectionManager()]
    for w in self.workers:
      a, b = create_queue_connection(raw=self.rnd.random() < 0.5)
      await w.switch.add_link(a); await self.switch.add_link(b)
      spawn(w)
    async def client():
      a, b = create_queue_connection(raw=self.rnd.random() < 0.5)
      await self.switch.add_link(a)
      c = Client(b); c.start()
      await c.request_address()
      await TopicsReceiver(c, []).start_recv()
      return c
    self.C = [await client(), await client()]
    t = asyncio.gather(*[wait_for_address_name(self.C[0], n) for n in (NAN.TASK_MANAGER_WEB, NAN.NAMED_TOPIC_MANAGER, NAN.SECRET_MANAGER)])
    await idle(6)
    if not t.done(): raise Exception("not up " + str([x.exception() for x in self.tasks if x.done()]))
    t.result()
    await idle(3)
    for x in self.tasks:
      if x.done(): raise Exception("ended: " + repr(x.exception()))

  async def http(self, ep, method, path, body=b""):
    rnd, out = self.rnd, []
    if isinstance(body, str): body = body.encode()
    parts = [body]
    if len(body) > 1 and rnd.random() < 0.3: n = rnd.randrange(1, len(body)); parts = [body[:n], body[n:]]
    evs = [{"type": "http.request", "body": p, "more_body": i < len(parts) - 1} for i, p in enumerate(parts)]
    raw = urllib.parse.quote(path).encode()
    scope = {"type": "http", "asgi": {"version": "3.0"}, "http_version": "1.1", "method": method, "scheme": "http", "path": path, "raw_path": raw, "query_string": b"", "root_path": "",
             "headers": [(b"content-type", b"application/json"), (b"content-length", str(len(body)).encode())]}
    async def receive():
      if evs: return evs.pop(0)
      await asyncio.Future()
    async def send(e): out.append(e)
    await ASGIProxyApp(rnd.choice(self.C), ep)(scope, receive, send)
    return out[0]["status"], b"".join(e.get("body", b"") for e in out[1:])

  def route(self, kind):
    """where the management interface of a kind is, and its prefix there"""
    back = self.rnd.random() < 0.5
    if kind == "name": return (NAN.TASK_MANAGER_WEB, "/named-topics") if back else (NAN.NAMED_TOPIC_MANAGER, "")
    if kind == "sec": return (NAN.TASK_MANAGER_WEB, "/secrets") if back else (NAN.SECRET_MANAGER, "")
    if kind in ("con", "srv"): return (NAN.TASK_MANAGER_WEB, self.workers[3].path.rstrip("/"))
    return NAN.TASK_MANAGER_WEB, ""

  def content(self, kind, id, c):
    u = self.uuid.get((kind, id))
    v = (c % 10) - 1
    if kind == "dep": return {"id": u, "label": LABELS[v]}
    if kind == "task": return {"id": u, "deployment_id": self.uuid["dep", c // 10], "task_host_id": f"h{v}", "label": LABELS[v], "config": CONFIGS[v], "frontend_config": CONFIGS[6 - v], "inputs": [METAS[v]] * (v % 3), "outputs": [METAS[6 - v]] * (v % 2)}
    if kind == "dash": return {"id": u, "deployment_id": self.uuid["dep", c // 10], "label": LABELS[v], "windows": [{"task_id": self.uuid["task", 1], "x": float(v), "y": 0.1, "width": 1e9, "height": -0.5}] * (v % 3)}
    if kind == "name": return {"name": self.names[id - 1], "metadata": METAS[v]}
    if kind == "sec": return {"id": u, "value": SECRETS[v]}
  def parse(self, kind, x):
    """an entry of a listing: (id, content)"""
    if kind in ("con", "srv"):
      t = self.con if kind == "con" else self.srv
      for i, u in t.items():
        p = urllib.parse.urlparse(u)
        q = urllib.parse.urlparse(x["url"])
        if (q.scheme, q.netloc, q.path, q.query) == (p.scheme, (p.hostname or "") + (f":{p.port}" if p.port else ""), p.path, ""): return [i, 1 if x["running"] else -3]
      return [-1, -1]
    if kind == "name": i = self.names.index(x["name"]) + 1 if x.get("name") in self.names else -1
    else: i = self.inv.get(x.get("id"), -1)
    if i < 0: return [-1, -1]
    x = dict(x)
    if kind == "dep" and x.pop("status", "offline") != "offline": return [i, -2]
    if kind == "task" and x.pop("task_instance", None) is not None: return [i, -2]
    for d in range(0, 8) if kind in ("task", "dash") else [0]:
      for v in range(1, 8):
        c = 10 * d + v
        if (kind not in ("task", "dash") or d > 0) and same(self.content(kind, i, c), x): return [i, c]
    return [i, -1]

  async def one(self, o):
    kind, id, c, k = o["kind"], o["id"], o["c"], o["k"]
    res = {"s": "error", "v": [], "t": 0}
    rnd = self.rnd
    web = kind not in ("name", "sec") or rnd.random() < 0.5
    if kind == "sec" and k == "get" or k == "res": web = False
    ep, pre = self.route(kind)
    if web:
      u = self.uuid.get((kind, id))
      lists = {"dep": "/api/deployments", "name": "/api/named-topics", "con": "/api/connections", "srv": "/api/servers"}
      items = {"dep": "/api/deployment", "task": "/api/task", "dash": "/api/dashboard", "name": "/api/named-topic", "sec": "/api/secret", "con": "/api/connection", "srv": "/api/server"}
      if k == "list":
        if kind == "sec": k = "get"; return {"s": "ok", "v": await self.secrets(), "t": 0}
        path = lists.get(kind) or f"/api/deployment/{self.uuid['dep', id]}/" + ("tasks" if kind == "task" else "dashboards")
        st, b = await self.http(ep, "GET", pre + path)
        if st == 200: res["v"] = [self.parse(kind, x) for x in json.loads(b)]
        if st == 200 and kind == "srv":
          for i in self.srv:
            open_ = self.accepts(i)
            if open_ != (i in [x[0] for x in res["v"]]): res["v"].append([i, 99])
      elif k in ("put", "new"):
        body = {"url": (self.con if kind == "con" else self.srv)[id]} if kind in ("con", "srv") else self.content(kind, id, c)
        st, b = await self.http(ep, "POST" if k == "new" else "PUT", pre + items[kind], json.dumps(body, ensure_ascii=rnd.random() < 0.5))
        if kind in ("con", "srv"): await idle(2)
      elif k == "bad":
        body = rnd.choice([b"", b"{", b"[]", b"null", b"{}", json.dumps({"id": "no", "label": 1, "value": 1, "name": 1, "url": 5}).encode()])
        if kind in ("con", "srv"): body = rnd.choice([body, b'{"url": "bogus://x"}' if kind == "srv" else body, b'{"url": "tcp://localhost:nope"}'])
        m = "POST" if kind in ("con", "srv") or kind == "dep" and rnd.random() < 0.5 else "PUT"
        st, b = await self.http(ep, m, pre + items[kind], body)
      else:
        if kind in ("con", "srv"):
          _, b = await self.http(ep, "GET", pre + lists[kind])
          u = next((x["id"] for x in json.loads(b) if self.parse(kind, x)[0] == id), "0" * 16)
        seg = self.names[id - 1] if kind == "name" else u
        st, b = await self.http(ep, "DELETE" if k == "del" else "GET", pre + items[kind] + "/" + seg)
        if st == 200 and k == "get": res["v"] = [self.parse(kind, json.loads(b))]
        if kind in ("con", "srv"): await idle(2)
      res["s"] = {200: "ok", 404: "missing", 400: "refused"}.get(st, "error")
      return res
    cl = rnd.choice(self.C)
    try:
      if kind == "sec":
        sm = SecretManagerClient(cl)
        u = self.uuid.get(("sec", id))
        if k == "put":
          if rnd.random() < 0.5: await sm.put_secret(u, SECRETS[c - 1])
          else: await cl.fetch(NAN.SECRET_MANAGER, "put_secret", self.content("sec", id, c))
        elif k == "get":
          if rnd.random() < 0.5: res["v"] = [[id, find(SECRETS, await sm.resolve_secret(u))]]
          else: res["v"] = [self.parse("sec", await cl.fetch(NAN.SECRET_MANAGER, "get_secret", {"id": u}))]
        elif k == "del":
          if rnd.random() < 0.5: await sm.delete_secret(u)
          else: await cl.fetch(NAN.SECRET_MANAGER, "delete_secret", {"id": u})
        elif k == "list": res["v"] = await self.secrets()
        else: await cl.fetch(NAN.SECRET_MANAGER, rnd.choice(["get_secret", "put_secret", "delete_secret"]), rnd.choice([None, {}, {"id": "x"}, [1]]))
      else:
        n = self.names[id - 1] if id else None
        if k == "put": await cl.fetch(NAN.NAMED_TOPIC_MANAGER, "put_named_topic", self.content("name", id, c))
        elif k == "get": res["v"] = [self.parse("name", await cl.fetch(NAN.NAMED_TOPIC_MANAGER, "get_named_topic", {"name": n}))]
        elif k == "del": await cl.fetch(NAN.NAMED_TOPIC_MANAGER, "delete_named_topic", {"name": n})
        elif k == "list": res["v"] = [self.parse("name", x) for x in await cl.fetch(NAN.NAMED_TOPIC_MANAGER, "list_named_topics", None)]
        elif k == "res": res["t"] = (await cl.fetch(NAN.NAMED_TOPIC_MANAGER, "resolve_named_topic", {"name": n}))["topic"]
        else: await cl.fetch(NAN.NAMED_TOPIC_MANAGER, rnd.choice(["get_named_topic", "put_named_topic", "delete_named_topic", "resolve_named_topic"]), rnd.choice([None, {}, {"name": None}, [1]]))
      res["s"] = "ok"
    except FetchError as e:
      code = e.status_code.value if e.status_code else "?"
      res["s"] = {"not_found": "missing", "bad_request": "refused"}.get(code, "error")
    return res
  async def secrets(self):
    v = []
    for i in range(1, 5):
      try: v.append(self.parse("sec", await self.C[0].fetch(NAN.SECRET_MANAGER, "get_secret", {"id": self.uuid["sec", i]})))
      except FetchError as e:
        if e.status_code.value != "not_found": v.append([i, -1])
    return v
  def accepts(self, i):
    s = socket.socket(socket.AF_UNIX)
    try: s.connect(self.srv[i][len("unix://"):]); return True
    except OSError: return False
    finally: s.close()
  async def settle(self, coro):
    t = asyncio.ensure_future(coro)
    await idle(8)
    if not t.done(): t.cancel(); raise Exception("no answer")
    return t.result()
  async def dump(self):
    d = []
    async def lst(kind, id=0): return (await self.settle(self.one({"k": "list", "kind": kind, "id": id, "c": 0})))["v"]
    deps = await lst("dep")
    d += [["dep", *x] for x in deps]
    for x in deps:
      if x[0] > 0:
        for kind in ("task", "dash"): d += [[kind, *y] for y in await lst(kind, x[0])]
    for kind in ("name", "sec", "con", "srv"): d += [[kind, *y] for y in await lst(kind)]
    return d

  async def go(self, first, ops, last):
    try:
      await self.start()
      if not first: self.emit({"up": True, "dump": await self.dump()})
    except Exception as e:
      self.emit({"up": False, "dump": [], "why": repr(e)[:300]}); return
    for o in ops:
      try: obs = await self.settle(asyncio.gather(*(self.one(x) for x in o["os"])))
      except BaseException as e:
        self.emit({"k": "opfail", "op": o, "why": f"{type(e).__name__}: {e}"[:300]}); return
      self.emit({**o, "obs": list(obs)})
    if last is None: return
    if last["k"] == "die":
      self.arm(last["n"], os.path.join(self.scratch, "data"))
      t = asyncio.ensure_future(self.one(last["o"]))
      await idle(8)
      self.arm(0, "")
      self.emit({"acked": t.done() and t.exception() is None and t.result()["s"] == "ok"})
      return
    if last["how"] == "stop":
      for t in reversed(self.tasks):
        t.cancel()
        try: await t
        except asyncio.CancelledError: pass
      if any(self.accepts(i) for i in self.srv): self.emit({"k": "opfail", "why": "a server is left open"})

def scenario(sc):
  lib = ctypes.CDLL(None)
  ev = []
  scratch = tempfile.mkdtemp(prefix="st", dir=os.getcwd())
  os.environ["DATA_DIR"] = os.path.join(scratch, "data"); os.mkdir(os.environ["DATA_DIR"])
  names = NAMES
  sessions, cur = [], []
  for o in sc["ops"]:
    if o["k"] == "do": cur.append(o)
    else: sessions.append((cur, o)); cur = []
  sessions.append((cur, None))
  pend = None
  try:
    for n, (ops, last) in enumerate(sessions):
      path = os.path.join(scratch, f"out{n}")
      sys.stdout.flush(); sys.stderr.flush()
      pid = os.fork()
      if pid == 0:
        try:
          with open(path, "w") as out:
            def arm(k, d): lib.crash_arm(k, d.encode())
            s = Session(sc["seed"] * 100 + n, scratch, names, out, arm)
            _, err = run(lambda: s.go(n == 0, ops, last), wall=20)
            if err: s.emit({"k": "opfail", "why": err})
        finally: os._exit(0)
      _, status = os.waitpid(pid, 0)
      lines = [json.loads(l) for l in open(path)]
      if status != 0 and not (os.WIFEXITED(status) and os.WEXITSTATUS(status) == 77 and last and last["k"] == "die"):
        return ev + [{"k": "opfail", "why": f"process ended: {status}"}]
      if pend is not None:
        h = lines.pop(0) if lines else {"up": False, "dump": [], "why": "nothing"}
        pend["obs"].update(h)
        ev.append(pend); pend = None
        if not h["up"]: return ev
      acked = False
      for x in lines:
        if "acked" in x: acked = x["acked"]
        else: ev.append(x)
      if ev and ev[-1]["k"] == "opfail": return ev
      if last is not None: pend = {**last, "obs": {"acked": acked}}
  finally: shutil.rmtree(scratch, ignore_errors=True)
  return ev

if __name__ == "__main__": main(scenario)
