"""Web requests over the network: applications behind ASGIAppRunner, requesters behind ASGIProxyApp."""
import os, sys, random, asyncio, json, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.driver import main
from vlib.vloop import run, idle, advance
from streamtasks.net import Switch, create_queue_connection
from streamtasks.client import Client
from streamtasks.client.receiver import TopicsReceiver
from streamtasks.services.discovery import DiscoveryWorker
from streamtasks.asgi import ASGIProxyApp, ASGIAppRunner
from streamtasks.asgiserver import ASGIServer, ASGIRouter, HTTPContext, http_context_handler
from streamtasks.worker import Worker

class Boom(Exception): pass

def event(ty, toapp, x):
  """event number x"""
  if toapp:
    if x == 90: return {"type": "http.disconnect"} if ty == "http" else {"type": "websocket.disconnect", "code": 1001}
    if ty == "http":
      body = [b"", b"x", bytes(range(256)), b"z" * 70000, "käse".encode(), b"\x00", b" \tx\r\n"][x % 7]
      return [{"type": "http.request", "body": body, "more_body": x < 7}, {"type": "http.request", "body": body}, {"type": "http.request", "body": body, "more_body": True, "n": x}][x % 3] | {"i": x}
    if x == 1: return {"type": "websocket.connect", "i": 1}
    return {"type": "websocket.receive", "i": x, **[{"bytes": None, "text": "käse \U0001f600" * x}, {"bytes": b"\xff\x00" * x, "text": None}, {"text": ""}, {"bytes": b""}][x % 4]}
  if ty == "http":
    if x < 5: return {"type": "http.response.start", "status": 200 + x, "i": x, "headers": [(b"a", b"\xff"), (b"content-length", b"3")][:x % 3], "trailers": x % 2 == 0}
    return {"type": "http.response.body", "i": x, "body": [b"", b"abc", bytes(range(256)), b"q" * 70000, b"\n z\n"][x % 5], "more_body": x % 2 == 0}
  if x < 3: return {"type": "websocket.accept", "i": x, "subprotocol": [None, "p"][x % 2], "headers": [[b"x", b"y"]]}
  if x == 3: return {"type": "websocket.close", "i": x, "code": 1008, "reason": "nö"}
  return {"type": "websocket.send", "i": x, **[{"bytes": None, "text": "t" * x}, {"bytes": b"\x80" * x, "text": None}, {"bytes": b"", "text": None}, {"text": ""}][x % 4]}

def scope(ty, s):
  b = {"type": ty, "asgi": {"version": "3.0", "spec_version": "2.3"}, "http_version": "1.1", "scheme": "http" if ty == "http" else "ws", "path": ["/", "/a b/ü", "/x/y/", "", "/%2f", "/q"][s - 1], "raw_path": [b"/", b"/a%20b", b"/x/y/", b"", b"/%252f", None][s - 1],
       "query_string": [b"", b"a=1&b=%ff", b"\xff", b"", b"x", b"?"][s - 1], "root_path": ["", "/root"][s % 2], "headers": [(b"host", b"h"), (b"x-b", b"\xfe\x00"), (b"x-b", b" 2\n")][:s % 4], "client": ("127.0.0.1", 1000 + s), "server": ("h", None), "n": s}
  if ty == "http": b["method"] = ["GET", "POST", "PUT", "X"][s % 4]
  else: b["subprotocols"] = ["a", "b"][:s % 3]
  return b

def norm(x):
  if isinstance(x, (list, tuple)): return [norm(y) for y in x]
  if isinstance(x, dict): return {k: norm(v) for k, v in x.items()}
  if isinstance(x, (bytearray, memoryview)): return bytes(x)
  return x
def same(a, b):
  a, b = norm(a), norm(b)
  def eq(a, b):
    if type(a) != type(b): return False
    if isinstance(a, dict): return a.keys() == b.keys() and all(eq(v, b[k]) for k, v in a.items())
    if isinstance(a, list): return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    return a == b
  return eq(a, b)

class Conn:
  def __init__(self, c, ty, s): self.c, self.ty, self.s, self.cmds, self.app, self.feed, self.task, self.sraise, self.waits = c, ty, s, asyncio.Queue(), False, asyncio.Queue(), None, False, []

METHODS = ["GET", "POST", "PUT", "DELETE"]
PATHS = ["/", "/a", "/a/b c/ü", "/x//y/", "/%zz"]
HEADERS = [[], [(b"X-One", b"1")], [(b"x-two", b"a"), (b"X-Two", b"b")], [(b"x-uml", "käse".encode())], [(b"content-type", b"text/plain; charset=utf-8")]]
BODIES = [b"", b"x", b"hello world", bytes(range(256)) * 3, b"y" * 150000, "käse".encode()]

class D:
  def __init__(self, sc): self.cfg, self.rnd, self.cn, self.bad, self.a, self.r, self.runs = sc["cfg"], random.Random(sc["seed"]), {}, [], [], [], {}
  async def link(self, sw):
    a, b = create_queue_connection(raw=self.rnd.random() < 0.6)
    await self.rnd.choice([self.sw, self.sw2]).add_link(a)
    await sw.add_link(b)
  async def client(self, sw=None):
    a, b = create_queue_connection(raw=self.rnd.random() < 0.6)
    await (sw or self.rnd.choice([self.sw, self.sw2])).add_link(a)
    c = Client(b); c.start()
    await c.request_address()
    await TopicsReceiver(c, []).start_recv()
    return c
  async def soon(self, coro, rounds=5):
    t = asyncio.ensure_future(coro)
    for _ in range(rounds):
      await idle()
      if t.done(): return t.result()
    t.cancel()
    raise Exception("no answer")
  async def start(self):
    disc = DiscoveryWorker()
    self.bg = [asyncio.ensure_future(disc.run())]
    self.sw, self.sw2 = disc.switch, Switch()
    x, y = create_queue_connection(raw=True)
    await self.sw.add_link(x); await self.sw2.add_link(y)
    await idle(2)
    self.C = [await self.soon(self.client()) for _ in range(3)]
    self.A = {r: await self.soon(self.client()) for r in (1, 2)} if self.cfg == "plain" else {}
    for r in (1, 2): self.up(r)
    self.bg.append(asyncio.ensure_future(ASGIAppRunner(self.C[2], self.echo(), 4242).run()))
    await idle(4)
    for r in (1, 2):
      if self.runs[r].done(): self.runs[r].result()
    # warm up
    for c in self.C: await self.soon(self.request(c, {"m": 1, "p": 1, "h": 1, "b": 1, "res": 1}))
    await idle(3)
    self.base = len(asyncio.all_tasks())
  def up(self, r):
    app = self.app(r)
    d = self
    if self.cfg == "plain": coro = ASGIAppRunner(self.A[r], app, 70 + r).run()
    else:
      class W(Worker):
        async def run(self):
          try:
            client = await self.create_client()
            client.start()
            await client.request_address()
            d.A[r] = client
            await ASGIAppRunner(client, app, 70 + r).run()
          finally: await self.shutdown()
      w = W()
      async def go():
        await d.link(w.switch)
        await w.run()
      coro = go()
    self.runs[r] = asyncio.ensure_future(coro)

  def app(self, r):
    async def app(sc, receive, send):
      c = self.cn.get(sc.get("n") - 100 if isinstance(sc.get("n"), int) else -1)
      if c is None or c.r != r or c.app or not same(sc, c.scope): self.bad.append(f"scope {sc}"[:300]); return
      c.app = True
      async def recv():
        e = await receive()
        x = e.get("i", 90) if isinstance(e, dict) else -1
        if e.get("type", "").endswith(".disconnect"):
          if e["type"] != event(c.ty, True, 90)["type"]: self.bad.append(f"disconnect {e}")
        elif not same(e, event(c.ty, True, x)): self.bad.append(f"event {e}"[:300]); x = -1
        self.a.append([c.c, x])
      try:
        while True:
          k, x = await c.cmds.get()
          if k == "recv": c.waits.append(asyncio.ensure_future(recv()))
          elif k == "unrecv":
            w = [t for t in c.waits if not t.done()]
            if w: self.rnd.choice(w).cancel()
          elif k == "send": await send(event(c.ty, False, x))
          elif k == "ret": return
          elif k == "raise": raise Boom("app")
      finally:
        c.app = None
        for t in c.waits: t.cancel()
    return app

  def issue(self, o):
    k = o["k"]
    c = self.cn.get(o.get("c"))
    if k == "open":
      c = self.cn[o["c"]] = Conn(o["c"], o["ty"], o["s"])
      c.r = o["r"]
      c.scope = {**scope(c.ty, c.s), "n": 100 + c.c}
      async def receive():
        x = await c.feed.get()
        if x is None: raise Boom("receive")
        return event(c.ty, True, x)
      async def send(e):
        x = e.get("i", -1)
        if c.sraise: raise Boom("send")
        if not same(e, event(c.ty, False, x)): self.bad.append(f"event {e}"[:300]); x = -1
        if self.rnd.random() < 0.3: await asyncio.sleep(0)
        self.r.append([c.c, x])
      sc = dict(c.scope)
      if self.rnd.random() < 0.5: sc["headers"] = tuple(sc["headers"]) if self.rnd.random() < 0.5 else [list(h) for h in sc["headers"]]
      client = self.rnd.choice(self.C)
      c.task = asyncio.ensure_future(ASGIProxyApp(client, (self.A[o["r"]].address, 70 + o["r"]))(sc, receive, send))
    elif k == "feed": c.feed.put_nowait(o["x"])
    elif k in ("recv", "unrecv", "ret", "raise"): c.cmds.put_nowait((k, 0))
    elif k == "send": c.cmds.put_nowait((k, o["x"]))
    elif k == "cancel": c.task.cancel()
    elif k == "rraise": c.feed.put_nowait(None)
    elif k == "sraise": c.sraise = True
    elif k == "stop": self.runs[o["r"]].cancel()
    elif k == "start": self.up(o["r"])

  # ---- plain requests
  def echo(self):
    app = ASGIServer()
    router = ASGIRouter()
    app.add_handler(router)
    self.dir = tempfile.mkdtemp(prefix="tn", dir=os.getcwd())
    @router.handler
    @http_context_handler
    async def _(ctx: HTTPContext):
      h = ctx.headers
      q = int(h["x-id"][0])
      for _ in range(self.rnd.randrange(4)): await asyncio.sleep(0)
      body = await ctx.body.read_all() if self.rnd.random() < 0.8 else b"".join([x async for x in self.parts(ctx)])
      self.saw[q] = {"m": ctx.method, "p": ctx.path, "h": {k: v for k, v in h.items() if k not in ("x-id", "content-length")}, "b": body}
      await self.answer(ctx, q, int(h["x-res"][0]) if "x-res" in h else 1)
    return app
  async def parts(self, ctx):
    while not ctx.body.ended: yield await ctx.body.read()
  async def answer(self, ctx, q, res):
    if res == 1: await ctx.respond_text(f"text {q} ü")
    elif res == 2: await ctx.respond_json({"q": q, "x": [1, None, "ü"]})
    elif res == 3: await ctx.respond_status(404)
    elif res == 4:
      w = await ctx.respond(201, headers=[(b"x-q", str(q).encode())])
      for i in range(5):
        w.write(b"%d" % q * i); await w.flush()
        for _ in range(self.rnd.randrange(3)): await asyncio.sleep(0)
      await w.close()
    elif res in (5, 6):
      ctx.add_response_headers([(b"x-added", b"1")])
      p = os.path.join(self.dir, f"{q}.css")
      with open(p, "wb") as f: f.write(b"%d," % q * (4096 if res == 5 else 3))
      await ctx.respond_file(p, buffer_size=len(b"%d," % q * 4096) // 4 if self.rnd.random() < 0.7 else -1)
      os.unlink(p)
    elif res == 7: await ctx.respond_buffer(200, bytes(range(256)) * (q % 7), "application/octet-stream")
    elif res == 8: await ctx.respond_json_raw(b'{"q":%d}' % q)
    elif res == 9: raise Boom("handler")
  def expected(self, q, res):
    def r(status, ct, body): return status, {"content-type": ct, "content-length": str(len(body))}, body
    if res == 1: return r(200, "text/plain; charset=utf-8", f"text {q} ü".encode())
    if res == 2: return r(200, "application/json; charset=utf-8", json.dumps({"q": q, "x": [1, None, "ü"]}).encode())
    if res == 3: return r(404, "text/plain; charset=utf-8", b"Not found")
    if res == 4: return 201, {"x-q": str(q)}, b"".join(b"%d" % q * i for i in range(5))
    if res in (5, 6):
      s, h, b = r(200, "text/css", b"%d," % q * (4096 if res == 5 else 3))
      return s, {**h, "x-added": "1"}, b
    if res == 7: return r(200, "application/octet-stream", bytes(range(256)) * (q % 7))
    if res == 8: return r(200, "application/json; charset=utf-8", b'{"q":%d}' % q)
    return r(500, "text/plain; charset=utf-8", b"-")
  nq = 0
  saw = {}
  async def request(self, client, x):
    D.nq += 1
    q = D.nq
    rnd, body, out = self.rnd, BODIES[x["b"] - 1], []
    cuts = sorted(rnd.randrange(len(body) + 1) for _ in range(rnd.randrange(4)))
    parts = [body[a:b] for a, b in zip([0] + cuts, cuts + [len(body)])]
    evs = [{"type": "http.request", "body": p, "more_body": i < len(parts) - 1} for i, p in enumerate(parts)]
    if rnd.random() < 0.3: evs[-1].pop("more_body")
    if parts == [b""] and rnd.random() < 0.5: evs[0].pop("body")
    h = HEADERS[x["h"] - 1]
    sc = {"type": "http", "asgi": {"version": "3.0"}, "http_version": "1.1", "method": METHODS[x["m"] - 1], "scheme": "http", "path": PATHS[x["p"] - 1], "raw_path": b"", "query_string": b"", "root_path": "",
          "headers": h + [(b"x-id", str(q).encode()), (b"x-res", str(x["res"]).encode())]}
    async def receive():
      for _ in range(rnd.choice([0, 0, 1, 5])): await asyncio.sleep(0)
      if evs: return evs.pop(0)
      return await asyncio.Future()
    async def send(e):
      for _ in range(rnd.choice([0, 0, 1, 3])): await asyncio.sleep(0)
      out.append(e)
    await ASGIProxyApp(client, (self.C[2].address, 4242))(sc, receive, send)
    s = D.saw.pop(q, None)
    res = {"m": -1, "p": -1, "h": -1, "b": -1, "res": -1}
    if s is not None:
      res["m"] = METHODS.index(s["m"]) + 1 if s["m"] in METHODS else -1
      res["p"] = PATHS.index(s["p"]) + 1 if s["p"] in PATHS else -1
      want = {}
      for k, v in h + [(b"x-res", str(x["res"]).encode())]: want.setdefault(k.decode().lower(), []).append(v.decode())
      res["h"] = x["h"] if s["h"] == want else -1
      res["b"] = BODIES.index(s["b"]) + 1 if s["b"] in BODIES else -1
    if len(out) > 1 and out[0]["type"] == "http.response.start" and all(e["type"] == "http.response.body" and e.get("more_body", False) == (i < len(out) - 2) for i, e in enumerate(out[1:])):
      if (out[0]["status"], {k.decode(): v.decode() for k, v in out[0]["headers"]}, b"".join(e.get("body", b"") for e in out[1:])) == self.expected(q, x["res"]): res["res"] = x["res"]
    return res

def scenario(sc):
  ev = []
  async def go():
    d = D(sc)
    await d.start()
    try:
      for o in sc["ops"]:
        k, ans = o["k"], []
        try:
          if k == "http":
            ts = [asyncio.ensure_future(d.request(d.rnd.choice(d.C), q)) for q in o["qs"]]
            await idle(6)
            for t in ts:
              if t.done(): ans.append(t.result())
              else: t.cancel(); ans.append({"m": 0, "p": 0, "h": 0, "b": 0, "res": 0})
          elif k == "burst":
            xs = [o["a"], o["b"]]
            if o["a"]["k"] != "open" and d.rnd.random() < 0.5: xs.reverse()
            d.issue(xs[0])
            for _ in range(d.rnd.choice([0, 0, 1, 2, 3, 4, 6, 8, 10, 12, 15, 20, 25, 30])): await asyncio.sleep(0)
            d.issue(xs[1])
          else: d.issue(o)
          await idle(6)
          if k in ("stop", "burst"): await advance(0.3); await idle(4)
          open_ = []
          for c in d.cn.values():
            if not c.task.done(): open_.append(c.c)
            elif not c.task.cancelled() and c.task.exception() is not None and not isinstance(c.task.exception(), Boom): raise c.task.exception()
        except BaseException as e:
          ev.append({"k": "opfail", "op": o, "why": f"{type(e).__name__}: {e}"[:300]}); return
        ev.append({**o, "obs": {"a": d.a[:], "r": d.r[:], "apps": [c.c for c in d.cn.values() if c.app], "open": open_, "left": len(asyncio.all_tasks()) - d.base, "bad": d.bad[:], "ans": ans}})
        d.a.clear(); d.r.clear(); d.bad.clear()
    finally:
      shutil.rmtree(d.dir, ignore_errors=True)
      for t in d.bg + list(d.runs.values()): t.cancel()
  _, err = run(go, wall=25)
  if err: ev.append({"k": "opfail", "why": err})
  return ev

if __name__ == "__main__": main(scenario)
