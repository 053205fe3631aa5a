"""Synchronized topics of a client; the synchronizer block."""
import os, sys, random, asyncio
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.driver import main
from vlib.vloop import run, idle
from streamtasks.net import create_queue_connection
from streamtasks.client import Client
from streamtasks.client.topic import SequentialInTopicSynchronizer, PrioritizedSequentialInTopicSynchronizer
from streamtasks.net.messages import *
from streamtasks.net.serialization import RawData

def scenario(sc):
  rnd = random.Random(sc["seed"])
  ev = []
  cfg = sc["cfg"]
  base, scale = sc["base"], sc["scale"]
  T = {t: t * 3 + sc["off"] for t in (1, 2, 3)}
  O = {t: 100 + T[t] for t in T}
  time = lambda ts: base + ts * scale if ts > 0 else 0
  async def go():
    a, b = create_queue_connection(raw=rnd.random() < 0.4)
    client = Client(a)
    out, seq, paused = {t: [] for t in T}, [], {t: 0 for t in T}
    tasks = {}
    if cfg["block"]:
      from streamtasks.system.tasks.synchronizer import SynchronizerTask, SynchronizerConfig
      task = SynchronizerTask(client, SynchronizerConfig(topics=[(T[t], O[t]) for t in T]))
      async def net():
        inv = {v: k for k, v in O.items()}
        while True:
          m = await b.recv()
          if isinstance(m, TopicDataMessage):
            out[inv[m.topic]].append(["data", m.data.data["n"]])
            if set(m.data.data) != {"n", "timestamp", "x"}: raise Exception("altered")
            seq.append((m.data.data["timestamp"] - base) // scale)
          elif isinstance(m, TopicControlMessage): paused[inv[m.topic]] = int(m.paused)
      nt = asyncio.ensure_future(net())
      await task.setup()
      rt = asyncio.ensure_future(task.run())
      await idle(2)
    else:
      client.start()
      if any(cfg["pr"]):
        sync = PrioritizedSequentialInTopicSynchronizer()
        for t in T:
          if cfg["pr"][t - 1] or rnd.random() < 0.4: sync.set_priority(T[t], cfg["pr"][t - 1])
      else: sync = rnd.choice([SequentialInTopicSynchronizer, PrioritizedSequentialInTopicSynchronizer])()
      H = {t: client.sync_in_topic(T[t], sync) for t in T}
      for h in H.values():
        await h.start(); await h.set_registered(True)
    first = True
    for o in sc["ops"]:
      k, t = o["k"], o["t"]
      try:
        if k == "recv": tasks[t] = asyncio.ensure_future(H[t].recv_data_control())
        elif k == "data": await b.send(TopicDataMessage(T[t], RawData({"timestamp": time(o["ts"]) if not sc["float"] else float(time(o["ts"])), "n": o["n"], "x": None})))
        elif k == "ctl": await b.send(TopicControlMessage(T[t], bool(o["v"])))
        elif k == "junk": await b.send(TopicDataMessage(T[t], RawData(rnd.choice([{"n": 1}, [1], "x", 5, {"timestamp": "x"}, {"timestamp": None}]))))
      except Exception as e:
        ev.append({"k": "opfail", "op": o, "why": f"{type(e).__name__}: {e}"[:300]}); return
      await idle(2)
      for u, x in list(tasks.items()):
        if x.done():
          try: r = x.result()
          except BaseException as e: ev.append({"k": "opfail", "op": o, "why": f"{type(e).__name__}: {e}"[:300]}); return
          out[u].append(["ctl", int(r.paused)] if isinstance(r, TopicControlData) else ["data", r.data["n"]])
          del tasks[u]
      if cfg["block"]:
        if rt.done() or nt.done(): ev.append({"k": "opfail", "op": o, "why": "task ended " + repr(rt.exception() if rt.done() else nt.exception())[:300]}); return
      ev.append({**o, "obs": {"out": [list(out[u]) for u in (1, 2, 3)], "seq": list(seq), "paused": [paused[u] for u in (1, 2, 3)]}})
      for u in out: out[u].clear()
      seq.clear()
  _, err = run(go, wall=20)
  if err: ev.append({"k": "opfail", "why": err})
  return ev

if __name__ == "__main__": main(scenario)
