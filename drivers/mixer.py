"""The audio mixer on a client whose other end the driver holds."""
import os, sys, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import asyncio
from vlib.driver import main
from vlib.vloop import run, idle
import numpy as np
from streamtasks.net import create_queue_connection
from streamtasks.client import Client
from streamtasks.net.messages import *
from streamtasks.net.serialization import RawData

BAD = -88888
CHUNKS = [[1, 2, 3, 4, 5, 6, 7, 8], [10] * 4 + [-10] * 4, [5, -5], [7], [], [100, 200, 300, 400, -300]]

def scenario(sc):
  rnd, cfg = random.Random(sc["seed"]), sc["cfg"]
  fmt, dt = rnd.choice([("s16", np.int16), ("s32", np.int32), ("s64", np.int64), ("flt", np.float32), ("dbl", np.float64)])
  base, scale, ch = rnd.choice([0, 1_700_000_000_000, 12345]), rnd.choice([1, 1, 2, 1000, 40]), cfg["ch"]
  T, O = {t: 10 + t * 3 for t in range(1, 4)}, 500
  ev, out, bad, sent = [], [], [], []
  def payload(m):
    if m["k"] == "junk": return rnd.choice([{"n": 1}, ["junk"], "junk", {"data": b"\0" * 8}])
    ts = base + m["ts"] * scale
    if m["v"] == BAD: return {"timestamp": ts, **rnd.choice([{}, {"data": None}, {"data": [1]}] + ([{"data": b"\0" * (dt().itemsize * ch + 1)}] if sc.get("odd", 1) else []))}
    a = np.array([[x * (c + 1) for c in range(ch)] for x in CHUNKS[m["v"] - 1]], dtype=dt)
    return {"timestamp": ts, "data": a.tobytes()}
  def decode(d):
    try:
      if set(d) != {"timestamp", "data"} or (d["timestamp"] - base) % scale: raise ValueError("shape")
      a = np.frombuffer(d["data"], dtype=dt).reshape(-1, ch)
      t = (d["timestamp"] - base) // scale
      for i, row in enumerate(a):
        if any(row[c] != row[0] * (c + 1) for c in range(ch)): raise ValueError("channels")
        out.append([t + i, int(row[0])])
    except Exception as e: bad.append(f"{type(e).__name__}: {e} {d}"[:200])
  async def go():
    from streamtasks.system.tasks.media.audiomixer import AudioMixerTask, AudioMixerConfig
    a, e = create_queue_connection(raw=rnd.random() < 0.4)
    client = Client(a)
    task = AudioMixerTask(client, AudioMixerConfig(audio_tracks=[{"in_topic": T[t]} for t in range(1, cfg["nt"] + 1)], sample_format=fmt, rate=1000 // scale, channels=ch, buffer_keep_size=cfg["keep"],
                                                   max_stretch_ratio=rnd.choice([1.1, 1.5]) if cfg["whole"] else 1, synchronized=cfg["sync"], out_topic=O))
    async def net():
      while True:
        m = await e.recv()
        if isinstance(m, TopicDataMessage):
          if m.topic == O: decode(m.data.data)
          else: bad.append(f"topic {m.topic}")
    nt = asyncio.ensure_future(net())
    await task.setup()
    rt = asyncio.ensure_future(task.run())
    await idle(2)
    for o in sc["ops"]:
      try:
        for m in o["ms"]:
          if m["k"] == "ctl": await e.send(TopicControlMessage(T[o["t"]], bool(m["v"])))
          else: await e.send(TopicDataMessage(T[o["t"]], RawData(payload(m))))
          if rnd.random() < 0.3: await idle(1)
      except Exception as x: ev.append({"k": "opfail", "op": o, "why": f"{type(x).__name__}: {x}"[:300]}); return
      await idle(3)
      for x, w in ((rt, "task"), (nt, "net")):
        if x.done(): ev.append({"k": "opfail", "op": o, "why": f"{w} ended {x.exception()!r}"[:300]}); return
      ev.append({**o, "obs": {"out": list(out), "bad": list(bad)}})
      out.clear(); bad.clear()
  _, err = run(go, wall=20, patch_time=True)
  if err: ev.append({"k": "opfail", "why": err})
  return ev

if __name__ == "__main__": main(scenario)
