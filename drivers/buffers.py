"""Time-driven stream blocks on a virtual clock."""
import os, sys, random, asyncio, copy, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.driver import main
from vlib.vloop import run, idle
from streamtasks.net import create_queue_connection
from streamtasks.client import Client
from streamtasks.net.messages import *
from streamtasks.net.serialization import RawData

NOTS = -1000000
U = 0.01       # seconds per unit


def scenario(sc):
  rnd = random.Random(sc["seed"])
  cfg, b = sc["cfg"], sc["cfg"]["b"]
  ev = []
  I, P, O = 3 + sc["off"], 4 + sc["off"], 9 + sc["off"]
  same = lambda x, y: repr(x) == repr(y)
  def make(client):
    from streamtasks.system.tasks import timebuffer, replaybuffer, repeater, messagedetector, pulsegenerator
    if b == "time": return timebuffer.TimeBufferTask(client, timebuffer.TimeBufferConfig(time_reference=cfg["ref"], size=cfg["size"] * 10, in_topic=I, out_topic=O))
    if b == "replay": return replaybuffer.ReplayBufferTask(client, replaybuffer.ReplayBufferConfig(loop=cfg["loop"], in_topic=I, play_topic=P, out_topic=O))
    if b == "repeat": return repeater.RepeaterTask(client, repeater.RepeaterConfig(rate=1 / (cfg["rate"] * U), fail_closed=cfg["fail"] == "closed", in_topic=I, out_topic=O))
    if b == "detect": return messagedetector.MessageDetectorTask(client, messagedetector.MessageDetectorConfig(fail_mode=cfg["fail"], time_out=cfg["tmo"] * U, repeat_interval=cfg["rep"] * U, in_topic=I, signal_topic=O))
    return pulsegenerator.PulseGeneratorTask(client, pulsegenerator.PulseGeneratorConfig(interval=cfg["rate"] * U, message_type=cfg["ref"], out_topic=O))

  async def go():
    lp = asyncio.get_running_loop()
    t0 = lp.time()
    T0 = round((1_000_000.0 + t0) * 1000)
    units = lambda s: int(round((s - t0) / U)) if abs((s - t0) / U - round((s - t0) / U)) < 0.3 else -9999
    def unstamp(x):
      if not isinstance(x, int): return -9998
      y = (x - T0) / 10
      return int(round(y)) if abs(y - round(y)) < 0.3 else -9999
    sent, ids = {}, set()
    def decode(d):
      at = units(lp.time())
      if b == "pulse":
        if cfg["ref"] == "id":
          fresh = isinstance(d, dict) and set(d) == {"id"} and d["id"] not in ids
          ids.add(str(d))
          return [at, 0, 0, 0] if fresh else [at, -1, 0, 0]
        return [at, 0, unstamp(d["timestamp"]), 0] if isinstance(d, dict) and set(d) == {"timestamp"} else [at, -1, 0, 0]
      if b == "detect": return [at, 0, unstamp(d["timestamp"]), int(d["value"])] if isinstance(d, dict) and set(d) == {"timestamp", "value"} and d["value"] in (0, 1) else [at, -1, 0, 0]
      for n, p in sent.items():
        if b == "time" and same(d, p): return [at, n, 0, 0]
        if b != "time" and isinstance(p, dict) and "timestamp" in p:
          if isinstance(d, dict) and "timestamp" in d and same({**d, "timestamp": 0}, {**p, "timestamp": 0}): return [at, n, unstamp(d["timestamp"]), 0]
        elif same(d, p): return [at, n, NOTS, 0]
      return [at, -1, 0, 0]
    a, e = create_queue_connection(raw=sc["raw"])
    client = Client(a)
    task = make(client)
    out, st = [], {"paused": 0}
    async def net():
      while True:
        m = await e.recv()
        if isinstance(m, TopicDataMessage): out.append(decode(m.data.data) if m.topic == O else [0, -2, 0, 0])
        elif isinstance(m, TopicControlMessage): st["paused"] = int(m.paused)
    nt = asyncio.ensure_future(net())
    await task.setup()
    rt = asyncio.ensure_future(task.run())
    await idle(2)
    now = 0
    for o in sc["ops"]:
      k = o["k"]
      try:
        if k == "data":
          p = {"n": o["n"], "timestamp": T0 + o["ts"] * 10, "value": 1, "u": [None]}
          if sc["float"]: p["timestamp"] = float(p["timestamp"])
          sent[o["n"]] = p
          await e.send(TopicDataMessage(I, RawData(copy.deepcopy(p))))
        elif k == "junk":
          p = rnd.choice([{"n": o["n"]}, ["junk", o["n"]], f"junk {o['n']}", 10_000 + o["n"], {"n": o["n"], "timestamp": None} if b == "time" else {"n": o["n"], "v": 2}])
          sent[o["n"]] = p
          await e.send(TopicDataMessage(I, RawData(copy.deepcopy(p))))
        elif k == "ctl": await e.send(TopicControlMessage(I, bool(o["v"])))
        elif k == "play": await e.send(TopicDataMessage(P, RawData({"timestamp": T0 + o["ts"] * 10, "value": o["v"] / 100})))
      except Exception as x: ev.append({"k": "opfail", "op": o, "why": f"{type(x).__name__}: {x}"[:300]}); return
      await idle(2)
      now += o["d"]
      dt = t0 + now * U - 0.005 - lp.time()
      if dt > 0: await asyncio.sleep(dt)
      await idle(2)
      for x, w in ((rt, "task"), (nt, "net")):
        if x.done(): ev.append({"k": "opfail", "op": o, "why": f"{w} ended {x.exception()!r}"[:300]}); return
      ev.append({**o, "obs": {"out": list(out), "paused": st["paused"]}})
      out.clear()
      await asyncio.sleep(t0 + now * U - lp.time())
    rt.cancel()
    await idle(3)
    ev.append({"k": "stop", "obs": {"out": list(out), "paused": st["paused"]}})
    if not rt.done(): ev.append({"k": "opfail", "why": "task goes on after cancellation"})
  _, err = run(go, wall=20, patch_time=True)
  if err: ev.append({"k": "opfail", "why": err})
  return ev

if __name__ == "__main__": main(scenario)
