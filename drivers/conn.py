"""Replays connection histories with real sockets (unix, tcp, websocket) in one process, virtual time for the pauses."""
import os, sys, random, asyncio, struct, shutil, tempfile, socket
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.driver import main
from vlib.vloop import run, idle, advance
from streamtasks.net import ConnectionClosedError
from streamtasks.connection import connect, create_server, AutoReconnector, DEFAULT_COSTS
from streamtasks.net.messages import OutTopicsChangedMessage, OutTopicsChangedRecvMessage, PricedId
from streamtasks.net.serialization import serialize_message
from importlib.metadata import version
import msgpack

MARK = b"\xb8\x23\xa0\x6f"
VERSION = ".".join(version("streamtasks").split(".")[:2])
frame = lambda b: MARK + struct.pack("<L", len(b)) + b
TOKEN = "ABCD"


async def read_frame(reader):
  """one frame, or None at the end of the stream; 'wait' if nothing arrives"""
  async def rd():
    try:
      h = await reader.readexactly(8)
      return await reader.readexactly(struct.unpack("<L", h[4:])[0])
    except (EOFError, ConnectionError): return None
  t = asyncio.ensure_future(rd())
  await idle(2)
  if t.done(): return t.result()
  t.cancel()
  return "wait"


class Proxy:
  """Passes bytes between a client and the server; can cut connections."""
  def __init__(self, w, name): self.w, self.name, self.writers, self.limit = w, name, [], None
  async def start(self):
    if self.w.kind == "unix":
      self.addr = os.path.join(self.w.dir, self.name)
      self.server = await asyncio.start_unix_server(self.on, self.addr)
    else:
      self.server = await asyncio.start_server(self.on, "127.0.0.1", 0)
      self.addr = self.server.sockets[0].getsockname()[1]
  async def on(self, r, wr):
    try: r2, wr2 = await (asyncio.open_unix_connection(self.w.addr) if self.w.kind == "unix" else asyncio.open_connection("127.0.0.1", self.w.addr))
    except OSError: wr.close(); return
    self.writers += [wr, wr2]
    lim, self.limit = self.limit, None
    async def pipe(a, b, d):
      n = 0
      try:
        while True:
          m = 65536
          if lim and lim[0] == d: m = lim[1] - n
          data = await a.read(m) if m > 0 else None
          if data is None: self.abort(wr, wr2); return
          if not data: break
          n += len(data); b.write(data)
      except (OSError, ConnectionError): pass
      finally:
        try: b.close()
        except Exception: pass
    self.w.bg.append(asyncio.ensure_future(pipe(r, wr2, "cs")))
    self.w.bg.append(asyncio.ensure_future(pipe(r2, wr, "sc")))
  def abort(self, *ws):
    for x in ws:
      try: x.transport.abort()
      except Exception: pass
  def cut(self): self.abort(*self.writers); self.writers = []


class Peer:
  """What an end sees through one of its links."""
  def __init__(self, link, topic):
    self.link, self.topic, self.known = link, topic, {}
    self.task = asyncio.ensure_future(self.run())
  async def run(self):
    try:
      await self.link.send(OutTopicsChangedMessage({PricedId(self.topic, 0)}, set()))
      while True:
        m = await self.link.recv()
        if isinstance(m, OutTopicsChangedRecvMessage):
          for p in m.remove: self.known.pop(p.id, None)
          for p in m.add: self.known[p.id] = p.cost
    except ConnectionClosedError: self.link.close()


class World:
  def __init__(self, sc):
    self.sc, self.ev, self.bg = sc, [], []
    self.rnd = random.Random(sc["seed"])
    self.kind = sc.get("kind", "unix")
    self.auth = sc["cfg"]["auth"]
    self.dir = tempfile.mkdtemp(prefix="vconn")
    self.server = self.obs = self.srv_task = None
    self.clients, self.proxies = {}, {}
    self.rec = self.rec_task = self.rec_peer = None
    self.tries = 0
    self.errors = []
    self.costs = {x: self.rnd.choice([None, 3, 7, 20, 1]) for x in ("s", 1, 2, 3, "r")}
    dflt = {"unix": DEFAULT_COSTS.UNIX, "tcp": DEFAULT_COSTS.TCP, "ws": DEFAULT_COSTS.WEBSOCKET}[self.kind]
    self.cost = {k: v or dflt for k, v in self.costs.items()}

  def url(self, addr, cost, tok):
    q = []
    if tok is not None: q.append("auth=" + tok)
    if cost is not None: q.append(f"cost={cost}")
    self.rnd.shuffle(q)
    base = f"unix://{addr}" if self.kind == "unix" else f"{self.kind}://127.0.0.1:{addr}"
    return base + ("?" + "&".join(q) if q else "")

  def tok(self, t): return {"right": TOKEN, "wrong": self.rnd.choice(["WRONG", TOKEN.lower(), TOKEN[:-1], TOKEN + "x"]), "absent": None}[t]

  async def start(self):
    if self.kind == "unix": self.addr = os.path.join(self.dir, "srv.sock")
    else:
      with socket.socket() as s: s.bind(("127.0.0.1", 0)); self.addr = s.getsockname()[1]
    for n in (1, 2, "r", "x"):
      self.proxies[n] = Proxy(self, f"p{n}.sock"); await self.proxies[n].start()
    self.proxies[3] = self.proxies[2]

  async def srvup(self):
    self.server = create_server(self.url(self.addr, self.costs["s"], TOKEN if self.auth else None))
    self.obs = Peer(await self.server.create_link(), 99)
    async def r():
      try: await self.server.run()
      except asyncio.CancelledError: raise
      except BaseException as e: self.errors.append(f"server: {type(e).__name__} {e}")
    self.srv_task = asyncio.ensure_future(r())
    await self.server.wait_running()

  async def srvdown(self):
    self.srv_task.cancel()
    await idle(2)
    if not self.srv_task.done(): await advance(0.5)
    ok = self.srv_task.done()
    self.server = self.obs = None
    return ok

  async def conn(self, c, tok):
    u = self.url(self.proxies[c].addr if c != 3 else self.addr, self.costs[c], self.tok(tok))
    t = asyncio.ensure_future(connect(u))
    await idle(2)
    if not t.done(): await advance(0.2)
    if not t.done(): t.cancel(); return "hangs"
    if t.exception() is not None: return "refused" if isinstance(t.exception(), Exception) else "err"
    self.clients[c] = Peer(t.result(), c)
    return "ok"

  async def raw(self, kind):
    res = {"res": "", "leak": False, "secret": False}
    try: r, w = await (asyncio.open_unix_connection(self.addr) if self.kind == "unix" else asyncio.open_connection("127.0.0.1", self.addr))
    except OSError: return {**res, "res": "down"}
    good = {"version": VERSION, **({"auth": TOKEN} if self.auth else {})}
    hello = {"good": lambda: frame(msgpack.packb({**good, "extra": 1})), "noisegood": lambda: b"\x01\xb8\x23" + frame(msgpack.packb(good)),
             "badver": lambda: frame(msgpack.packb({**good, "version": self.rnd.choice(["0.0", VERSION + ".1", "", None])})),
             "nover": lambda: frame(msgpack.packb({k: v for k, v in good.items() if k != "version"})),
             "badtok": lambda: frame(msgpack.packb({**good, "auth": self.rnd.choice(["zzz", True, 1])})),
             "othertok": lambda: frame(msgpack.packb({**good, "auth": TOKEN[:-1] if self.auth else ""})),
             "garbage": lambda: frame(self.rnd.choice([b"\xc1", b"\x81", b"\xdf\xff\xff\xff\xff"])), "notdict": lambda: frame(msgpack.packb(self.rnd.choice([[1], 5, "x", None]))),
             "empty": lambda: frame(b""), "eof": lambda: b"", "half": lambda: frame(msgpack.packb(good))[:-2], "silent": lambda: b""}[kind]()
    after = frame(serialize_message(OutTopicsChangedMessage({PricedId(60, 0)}, set())))
    w.write(hello)
    if kind not in ("eof", "half", "silent"): w.write(after)
    if kind == "eof": w.write_eof()
    f = await read_frame(r)
    if f is None: res["res"] = "refused"
    elif f == "wait": res["res"] = "open"
    else:
      try: d = msgpack.unpackb(f)
      except Exception: d = {}
      acc = isinstance(d, dict) and d.get("accepted") is True
      res["secret"] = TOKEN.encode() in f
      if not acc:
        # an answer that refuses is followed by the end of the connection
        res["res"] = "refused" if await read_frame(r) is None else "refused but open"
      else: res["res"] = "accepted"
    res["leak"] = (60 in self.obs.known) != (res["res"] == "accepted")
    w.close()
    await idle(2)
    return res

  async def fake(self, kind):
    """connect to something that is not a proper server"""
    st = {"eof": False}
    async def on(r, w):
      try:
        await r.readexactly(1)
        reply = {"no": lambda: frame(msgpack.packb({"version": VERSION, "accepted": False})), "badver": lambda: frame(msgpack.packb({"version": "0.0", "accepted": True})),
                 "nover": lambda: frame(msgpack.packb({"accepted": True})), "garbage": lambda: frame(b"\xc1"), "notdict": lambda: frame(msgpack.packb([1])),
                 "eof": lambda: b"", "half": lambda: frame(msgpack.packb({"version": VERSION, "accepted": True}))[:-1],
                 "noaccept": lambda: frame(msgpack.packb({"version": VERSION})), "truthy": lambda: frame(msgpack.packb({"version": VERSION, "accepted": "yes"}))}[kind]()
        w.write(reply)
        if kind in ("eof", "half"): w.write_eof()
        while await r.read(1000): pass
        st["eof"] = True
      except (OSError, EOFError): st["eof"] = True
      finally: w.close()
    if self.kind == "unix": p = os.path.join(self.dir, f"fake{len(self.ev)}.sock"); s = await asyncio.start_unix_server(on, p)
    else: s = await asyncio.start_server(on, "127.0.0.1", 0); p = s.sockets[0].getsockname()[1]
    t = asyncio.ensure_future(connect(self.url(p, None, None)))
    await idle(3)
    res = "hangs" if not t.done() else "ok" if t.exception() is None else "refused"
    if res == "ok": t.result().close()
    t.cancel()
    await idle(2)
    s.close()
    return {"res": res, "eof": st["eof"]}

  async def rec_connect(self, url):
    self.tries += 1
    if self.tries > 500: raise asyncio.CancelledError("too many attempts")
    return await connect(url)

  async def op(self, o):
    k, r = o["k"], {}
    if k == "srvup": await self.srvup()
    elif k == "srvdown": r["stopped"] = await self.srvdown()
    elif k == "conn": r["res"] = await self.conn(o["c"], o["tok"])
    elif k == "halfconn":
      px = self.proxies["x"]; px.limit = (o["dir"], o["n"])
      t = asyncio.ensure_future(connect(self.url(px.addr, None, TOKEN if self.auth else None)))
      await idle(2)
      if not t.done(): self.errors.append("connect hangs after a loss"); t.cancel()
      elif t.exception() is None: t.result().close()
      await idle(2); px.cut()
    elif k == "raw": r = await self.raw(o["kind"])
    elif k == "fake": r = await self.fake(o["kind"])
    elif k == "close":
      if o["c"] in self.clients: self.clients[o["c"]].link.close()
    elif k == "cut":
      c = o["c"]
      if c == 3: self.clients[3].link.close()
      else: self.proxies[c].cut()
    elif k == "recon":
      u = self.url(self.proxies["r"].addr if self.sc["cfg"]["recproxy"] else self.addr, self.costs["r"], self.tok(o["tok"]))
      self.rec = AutoReconnector(lambda: self.rec_connect(u), delay=1)
      self.rec_peer = Peer(await self.rec.create_link(), 50)
      self.rec_task = asyncio.ensure_future(self.rec.run())
    elif k == "recoff":
      self.rec_task.cancel()
      await idle(2)
      r["stopped"] = self.rec_task.done()
      self.rec = self.rec_task = self.rec_peer = None
    elif k == "cutr": self.proxies["r"].cut()
    await idle(2)
    if k == "adv": self.tries = 0; await advance(o["dt"]); await idle(2)
    for c in [c for c, p in self.clients.items() if p.link.closed]: self.clients.pop(c)
    if self.rec_task is not None and self.rec_task.done(): self.errors.append("the reconnector ended: " + repr(None if self.rec_task.cancelled() else self.rec_task.exception()))
    obs = {"res": "", "known": [[t, c] for t, c in sorted(self.obs.known.items())] if self.obs else [], "count": self.server.connection_count if self.server else 0,
           "sees": [[c, p.known[99], self.cost[c]] for c, p in sorted(self.clients.items()) if 99 in p.known], "alive": sorted(self.clients),
           "scost": self.cost["s"], "recl": bool(self.rec is not None and self.rec.connected), "tries": self.tries, "errors": self.errors[:3], "stopped": True,
           "leak": False, "secret": False, "eof": False, **r}
    self.ev.append({**o, "obs": obs})

  async def go(self):
    lp = asyncio.get_running_loop()
    lp.real_io, lp.io_grace = 1, {"unix": 0.004, "tcp": 0.02, "ws": 0.02}[self.kind]
    await self.start()
    for o in self.sc["ops"]: await self.op(o)
    if self.srv_task and not self.srv_task.done(): await self.srvdown()


def scenario(sc):
  w = World(sc)
  try: _, err = run(w.go, wall=40)
  finally: shutil.rmtree(w.dir, ignore_errors=True)
  if err: w.ev.append({"k": "opfail", "why": err})
  return w.ev

if __name__ == "__main__": main(scenario)
