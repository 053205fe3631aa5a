"""Blocks with a page: control and display tasks of a task host, used through the web interface."""
import os, sys, random, asyncio, json, shutil, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.driver import main
from vlib.vloop import run, idle
from streamtasks.net import Switch, create_queue_connection
from streamtasks.net.serialization import RawData
from streamtasks.net.messages import TopicControlData
from streamtasks.message.types import NumberMessage, TextMessage
from streamtasks.client import Client
from streamtasks.client.receiver import TopicsReceiver
from streamtasks.client.discovery import wait_for_address_name
from streamtasks.services.constants import NetworkAddressNames as NAN
from streamtasks.services.discovery import DiscoveryWorker
from streamtasks.asgi import ASGIProxyApp
from streamtasks.system.task import TaskManager, TaskManagerClient
from streamtasks.system.task_web import TaskWebBackend

NUM = [0.0, 0.5, -3.0, 1e9, 1 / 3, 1.0]
CH = {1: "a", 2: "ü", 3: "\U0001f600", 4: " ", 5: "\n", 6: "\0", 99: ","}
TEXTS = [[], [1], [2, 3], [4, 5, 6, 1, 2], [3] * 9, [99]]
TXT = ["", " \n\t", "a", " käse ", "x" * 5000, "0"]
B = {"switch": (1, 0), "slider": (1, 0)}

class D:
  def __init__(self, sc): self.rnd, self.bg, self.V, self.bad, self.resp, self.pub, self.cfgi = random.Random(sc["seed"]), [], {}, [], [], [], sc["cfg"]
  async def link(self, w):
    a, b = create_queue_connection(raw=self.rnd.random() < 0.4)
    await self.rnd.choice([self.sw, self.sw2]).add_link(a)
    await w.switch.add_link(b)
  async def client(self):
    a, b = create_queue_connection(raw=self.rnd.random() < 0.4)
    await self.rnd.choice([self.sw, self.sw2]).add_link(a)
    c = Client(b); c.start()
    await c.request_address()
    await TopicsReceiver(c, []).start_recv()
    return c
  async def soon(self, coro, rounds=5):
    t = asyncio.ensure_future(coro)
    for _ in range(rounds):
      await idle()
      if t.done(): return t.result()
    t.cancel()
    raise Exception("no answer")
  def spawn(self, coro): t = asyncio.ensure_future(coro); self.bg.append(t); return t
  def make(self):
    from streamtasks.system.tasks.ui import switchui, sliderui, radiobuttonsui, textinput, textdisplay, statusdisplay, valuedisplaybar
    T = self.T = [4001, 4002, 4003]
    i = self.cfgi
    self.b = ["switch", "switch", "slider", "slider", "radio", "radio", "textin", "textin", "text", "text", "text", "text", "status", "bar"][i - 1]
    iv = {1: 1, 2: 0, 3: 0.25, 4: 0, 5: 0.7, 6: 0, 7: 0, 8: 0.7}.get(i)
    if self.b == "switch": return switchui.SwitchUITaskHost([NAN.TASK_MANAGER]), {"repeat_interval": iv, "default_value": i == 1, "out_topic": T[0]}
    if self.b == "slider": return sliderui.SliderUITaskHost([NAN.TASK_MANAGER]), {"repeat_interval": iv, "default_value": NUM[0 if i == 3 else 2], "out_topic": T[0]}
    if self.b == "radio": return radiobuttonsui.RadioButtonsUITaskHost([NAN.TASK_MANAGER]), {"repeat_interval": iv, "button_tracks": [{"label": "b", "out_topic": t} for t in T]}
    if self.b == "textin": return textinput.TextInputTaskHost([NAN.TASK_MANAGER]), {"repeat_interval": iv, "out_topic": T[0]}
    if self.b == "text": return textdisplay.TextDisplayTaskHost([NAN.TASK_MANAGER]), {"max_length": {9: 7, 10: -1, 11: 3, 12: 0}[i], "seperator": "," if i in (9, 11) else "", "append": i != 11, "in_topic": T[0]}
    if self.b == "status": return statusdisplay.StatusDisplayTaskHost([NAN.TASK_MANAGER]), {"threshold": NUM[2], "in_topic": T[0]}
    return valuedisplaybar.ValueDisplayBarTaskHost([NAN.TASK_MANAGER]), {"default_value": NUM[1], "in_topic": T[0]}
  def enc(self, x):
    """the value of the block as the specification sees it"""
    try:
      if self.b == "switch": return int(x["value"]) if isinstance(x["value"], bool) else -1
      if self.b in ("slider", "status", "bar"): return NUM.index(x["value"]) + 1
      if self.b == "radio": return {-1: 0, 77: 4, **{t: i + 1 for i, t in enumerate(self.T)}}[x["selected_topic"]]
      if self.b == "textin": return TXT.index(x["value"]) + 1
      inv = {v: k for k, v in CH.items()}
      return [inv[c] for c in x["value"]]
    except (KeyError, ValueError, TypeError): self.bad.append(f"value {x}"[:200]); return [-9] if self.b == "text" else -9
  def dec(self, v):
    if self.b == "switch": return {"value": bool(v)}
    if self.b == "slider": return {"value": NUM[v - 1]}
    if self.b == "radio": return {"selected_topic": [-1, *self.T, 77][v]}
    return {"value": TXT[v - 1]}
  def now(self): return int(round((asyncio.get_running_loop().time() - self.t0) * 1000))
  async def sub(self, j, t):
    i = self.C[2].in_topic(t)
    async with i, i.RegisterContext():
      self.subs += 1
      while True:
        d = await i.recv_data_control()
        if isinstance(d, TopicControlData): continue
        try:
          if self.b == "textin": m = TextMessage.model_validate(d.data); v = TXT.index(m.value) + 1
          else:
            m = NumberMessage.model_validate(d.data)
            v = NUM.index(m.value) + 1 if self.b == "slider" else int(m.value) if m.value in (0, 1) else -1
          self.pub.append([j, self.now(), m.timestamp - round((1_000_000.0 + self.t0) * 1000), v])
        except Exception as e: self.bad.append(f"published {d.data}"[:200])
  async def start(self):
    self.t0 = asyncio.get_running_loop().time()
    disc = DiscoveryWorker()
    self.spawn(disc.run())
    self.sw, self.sw2 = disc.switch, Switch()
    x, y = create_queue_connection()
    await self.sw.add_link(x); await self.sw2.add_link(y)
    await idle(2)
    for w in (TaskManager(), TaskWebBackend()): await self.link(w); self.spawn(w.run())
    self.C = [await self.soon(self.client()) for _ in range(3)]
    for n in (NAN.TASK_MANAGER, NAN.TASK_MANAGER_WEB): await self.soon(wait_for_address_name(self.C[0], n))
    h, cfg = self.make()
    await self.link(h); self.spawn(h.run())
    await self.soon(h.ready.wait())
    await idle(3)
    self.control = self.b in ("switch", "slider", "radio", "textin")
    self.subs = 0
    if self.control:
      for j, t in enumerate(self.T): self.spawn(self.sub(j + 1, t))
    else:
      self.o = self.C[2].out_topic(self.T[0])
      await self.o.start(); await self.o.set_registered(True)
    await idle(3)
    tm = TaskManagerClient(self.C[1])
    t = await self.soon(tm.schedule_start_task(h.id, cfg), 20)
    if t.status.value != "running": self.bad.append(str(t))
    self.path = f"/task/{t.id}"
    self.t0 = asyncio.get_running_loop().time()
    await idle(3)
    st, b = await self.soon(self.http("GET", self.path + "/config"))
    if st != 200 or any(json.loads(b).get(k) != v for k, v in cfg.items()): self.bad.append(f"config {st} {b}"[:200])
    for p in ("/index.html", "/main.js"):
      st, b = await self.soon(self.http("GET", self.path + p))
      if st != 200 or len(b) < 20: self.bad.append(f"{p} {st}")
    v = self.enc(json.loads((await self.soon(self.http("GET", self.path + "/value")))[1]))
    self.pub.clear()
  async def http(self, method, path, body=b"", c=0):
    out, evs = [], [{"type": "http.request", "body": body, "more_body": False}]
    async def receive():
      if evs: return evs.pop(0)
      await asyncio.Future()
    async def send(e): out.append(e)
    await ASGIProxyApp(self.C[c], NAN.TASK_MANAGER_WEB)({"type": "http", "asgi": {"version": "3.0"}, "http_version": "1.1", "method": method, "scheme": "http", "path": path, "raw_path": path.encode(), "query_string": b"", "root_path": "", "headers": [(b"content-type", b"application/json"), (b"content-length", str(len(body)).encode())]}, receive, send)
    return out[0]["status"], b"".join(e.get("body", b"") for e in out[1:])
  async def post(self, body): self.resp.append((await self.http("POST", self.path + "/value", body, self.rnd.randrange(2)))[0])
  async def one(self, o):
    k, rnd = o["k"], self.rnd
    if k == "post": self.spawn(self.post(json.dumps(self.dec(o["v"])).encode()))
    elif k == "bad": self.spawn(self.post([b"{}", b'{"value": [1], "selected_topic": "x"}', b"no json"][o["i"] - 1]))
    elif k == "send":
      m, ts = o["m"], self.now()
      if m == 0: d = rnd.choice([{"x": 1}, {"timestamp": 3}, {"value": 1}, {"timestamp": 1, "value": None}, "text", [], {"timestamp": 1, "value": {}}])
      elif self.b == "text": d = {"timestamp": ts, "value": "".join(CH[c] for c in TEXTS[m - 1])}
      else: d = {"timestamp": ts, "value": NUM[m - 1]}
      await self.o.send(RawData(d))
    elif k == "open":
      v = self.V[o["w"]] = {"q": asyncio.Queue(), "out": [], "end": 0}
      v["q"].put_nowait({"type": "websocket.connect"})
      async def send(e):
        if e["type"] == "websocket.send": v["out"].append(e["text"])
        elif e["type"] == "websocket.close": v["end"] = 1
      p = self.path + "/value"
      v["t"] = self.spawn(ASGIProxyApp(rnd.choice(self.C), NAN.TASK_MANAGER_WEB)({"type": "websocket", "asgi": {"version": "3.0"}, "http_version": "1.1", "scheme": "ws", "path": p, "raw_path": p.encode(), "query_string": b"", "root_path": "", "headers": [], "subprotocols": []}, v["q"].get, send))
    elif k == "close":
      v = self.V[o["w"]]
      if rnd.random() < 0.5: v["q"].put_nowait({"type": "websocket.disconnect", "code": 1000})
      else: v["t"].cancel()

def scenario(sc):
  ev = []
  scratch = tempfile.mkdtemp(prefix="ui", dir=os.getcwd())
  os.environ["DATA_DIR"] = os.path.join(scratch, "data"); os.mkdir(os.environ["DATA_DIR"])
  async def go():
    d = D(sc)
    try:
      await d.start()
      for o in sc["ops"]:
        try:
          if o["k"] == "wait": await asyncio.sleep(o["dt"] / 1000 - (asyncio.get_running_loop().time() - d.t0 - d.now() / 1000))
          else:
            for i, x in enumerate(o["s"]):
              if i and d.rnd.random() < 0.5:
                for _ in range(d.rnd.choice([1, 1, 2, 3, 5, 8, 13, 20, 40])): await asyncio.sleep(0)
              await d.one(x)
          await idle(5)
          st, b = await d.soon(d.http("GET", d.path + "/value"))
          if st != 200: raise Exception(f"value {st}")
          val = d.enc(json.loads(b))
        except BaseException as e:
          ev.append({"k": "opfail", "op": o, "why": f"{type(e).__name__}: {e}"[:300]}); return
        shown = [[w, [d.enc(json.loads(t)) for t in v["out"]]] for w, v in sorted(d.V.items())]
        for v in d.V.values(): v["out"].clear()
        over = [w for w, v in d.V.items() if v["end"] or v["t"].done()]
        for w in over: d.V.pop(w)
        ev.append({**o, "obs": {"val": val, "pub": d.pub[:], "shown": [x for x in shown if x[1]], "over": sorted(over), "resp": d.resp[:], "bad": d.bad[:]}})
        d.bad.clear(); d.pub.clear(); d.resp.clear()
    finally:
      for t in d.bg: t.cancel()
  try:
    _, err = run(go, wall=25, patch_time=True)
    if err: ev.append({"k": "opfail", "why": err})
  finally: shutil.rmtree(scratch, ignore_errors=True)
  return ev

if __name__ == "__main__": main(scenario)
