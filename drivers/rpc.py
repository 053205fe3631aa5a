"""Request and signal servers, their handlers under the driver's control."""
import os, sys, random, asyncio
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.driver import main
from vlib.vloop import run, idle
from pydantic import BaseModel
from streamtasks.net import Switch, create_queue_connection
from streamtasks.client import Client
from streamtasks.client.fetch import FetchServer, FetchError
from streamtasks.client.signal import SignalServer, send_signal
from streamtasks.client.receiver import TopicsReceiver, Receiver
from streamtasks.services.constants import NetworkPorts
from streamtasks.net.messages import AddressedMessage
from streamtasks.net.serialization import RawData

V = [None, 1, 0, "", "text", {"a": [1, {"b": b"\x00\xff"}]}, False, [], 2 ** 40, {}]
class Answers(Receiver):
  """counts what arrives at ports of requests"""
  n = 0
  def on_message(self, m):
    if isinstance(m, AddressedMessage) and m.port >= NetworkPorts.DYNAMIC_START: Answers.n += 1
class M(BaseModel): x: int
PORTS = {1: 100, 2: 7777, 3: 103}


def scenario(sc):
  rnd = random.Random(sc["seed"])
  ev, begun, res, errors = [], [], [], []
  Answers.n = 0
  async def go():
    sw = Switch()
    async def client(addr):
      a, b = create_queue_connection(raw=rnd.random() < 0.4)
      await sw.add_link(a)
      c = Client(b); c.start()
      await c.set_address(addr)
      spy = TopicsReceiver(c, [])          # somebody always receives
      await spy.start_recv()
      await Answers(c).start_recv()
      return c
    base = rnd.choice([10, 0, 70000])
    S = await client(base)
    R = {r: await client(base + r) for r in (1, 2, 3)}
    def mkserver(s): return FetchServer(S) if s == 1 else FetchServer(S, PORTS[2]) if s == 2 else SignalServer(S)
    srv = {s: mkserver(s) for s in (1, 2, 3)}
    cur, tasks = {}, {}
    def unwrap(b): return b["id"], next((i for i, v in enumerate(V) if type(v) == type(b["v"]) and v == b["v"]), -1)
    def handler(s, d):
      async def h(req):
        i, b = unwrap(req if s == 3 else req.body)
        begun.append([s, i, d, b])
        f = asyncio.get_running_loop().create_future()
        cur[s] = (req, f)
        how = await f
        if how == "raise": raise rnd.choice([Exception("boom"), KeyError("k"), AssertionError(), FetchError(["x", 1])])
        if how == "invalid": M.model_validate({"x": "no"})
      return h
    def addroute(s, d):
      if rnd.random() < 0.5: srv[s].add_route(f"d{d}", handler(s, d))
      else: srv[s].route(f"d{d}")(handler(s, d))
    for s in (1, 2, 3):
      for d in (1, 2): addroute(s, d)
      tasks[s] = asyncio.ensure_future(srv[s].run())
    await idle(2)
    fetches = {}
    async def fetch(x):
      try:
        if x["s"] == 3: return await send_signal(R[x["r"]], base, f"d{x['d']}", {"id": x["id"], "v": V[x["b"]]})
        t = R[x["r"]].fetch(base if x["s"] == 1 else (base, PORTS[2]), f"d{x['d']}", {"id": x["id"], "v": V[x["b"]]})
        r = await t
        k, v = "ok", r
      except FetchError as e:
        str(e)
        code = e.status_code.value if e.status_code is not None else None
        if code in ("general", "bad_request"): k, v = code, None
        else: k, v = "err", e.body
      if x["s"] != 3: res.append([x["id"], k, 0 if k in ("general", "bad_request") else unwrap({"id": 0, "v": v})[1]])
    def junk(s, j):
      port = PORTS[s] if s else rnd.randrange(10000, 10012)
      if j == 1: d = RawData(b"\xc1\xff\x00")
      elif j == 2: d = RawData(b"\x93\x01")
      elif j == 3: d = RawData(rnd.choice([[1, 2], "x", 5, {}, False]))
      elif j == 4: d = RawData({"descriptor": "d1"} if s != 3 else {"body": 1})
      elif j == 5: d = RawData({"return_address": "x", "return_port": 1, "descriptor": "d1", "body": {"id": 99, "v": 1}} if s != 3 else {"descriptor": 5, "body": 1})
      elif j == 6: d = RawData({"error": 5 if s == 0 else None, "descriptor": None})
      elif j == 7: d = RawData({"return_address": base + 1, "return_port": 3, "descriptor": "nothing", "body": None})
      else: d = RawData({"descriptor": ["d1"], "body": None})
      return AddressedMessage(base if s else base + rnd.choice([1, 2, 3]), port, d)
    for o in sc["ops"]:
      k = o["k"]
      try:
        s = o.get("s")
        if k in ("finish", "respond") and (s not in cur or cur[s][1].done()): continue    # the other of two simultaneous requests came first
        if k == "send":
          for x in o["rs"]:
            t = asyncio.ensure_future(fetch(x))
            if x["s"] != 3: fetches[x["id"]] = t
        elif k == "respond":
          req, f = cur[s]
          v = V[o["v"]]
          if o["how"] == "ok": await req.respond(v)
          else: await req.respond_error(v)
        elif k == "finish": cur[s][1].set_result(o["how"])
        elif k == "giveup": fetches[o["id"]].cancel()
        elif k == "junk": await R[rnd.choice([1, 2, 3])]._link.send(junk(s, o["j"]))
        elif k == "addroute": addroute(s, o["d"])
        elif k == "rmroute": srv[s].remove_route(f"d{o['d']}")
        elif k == "down":
          tasks[s].cancel()
          try: await tasks[s]
          except asyncio.CancelledError: pass
        elif k == "up": tasks[s] = asyncio.ensure_future(srv[s].run())
      except Exception as e:
        ev.append({"k": "opfail", "op": o, "why": f"{type(e).__name__}: {e}"[:300]}); return
      await idle(2)
      ev.append({**o, "obs": {"begun": list(begun), "res": list(res), "ans": Answers.n}})
      Answers.n = 0
      begun.clear(); res.clear()
  _, err = run(go, wall=20)
  if err: ev.append({"k": "opfail", "why": err})
  return ev

if __name__ == "__main__": main(scenario)
