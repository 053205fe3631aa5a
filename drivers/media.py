"""Media blocks that work in a thread, on a client whose other end the driver holds (real time, real threads)."""
import os, sys, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import asyncio, time
from vlib.driver import main
from vlib.vloop import run
import numpy as np
from streamtasks.net import create_queue_connection
from streamtasks.client import Client
from streamtasks.net.messages import *
from streamtasks.net.serialization import RawData

BAD = -88888
SAMPLES = [[2, 4, -6, 8], [20000, -20000, 30000, -30000, 4], [32766, -32768], [10], [], [100, -200, 300, 400, -500, 600, 700]]
LEVELS = [[1, 1, 4], [4, -4], [1], [4] * 5, [], [1, -1, 1, -4, 1, 1, 4, 4, -1, 1, 1], [-4, 1]]
FRAMES = [[0, 0, 0, 0], [1, 0, 0, 0], [255, 0, 10, 3], [128, 127, 0, 255], [255] * 4, [0, 1, 2, 3]]
late = [0]     # how often something was missing in this process

def scenario(sc):
  rnd, cfg = random.Random(sc["seed"]), sc["cfg"]
  b, g = cfg["b"], cfg["g"]
  base, scale = rnd.choice([0, 1_700_000_000_000, 12345]), 1 if b == "volume" else rnd.choice([1, 2, 1000])
  fmt, dt = rnd.choice({"volume": [("flt", np.float32), ("dbl", np.float64)]}.get(b) or ([("s16", np.int16), ("s16p", np.int16)] if cfg["lim"] else [("s32", np.int32), ("s32p", np.int32), ("s64", np.int64)]))
  ch = rnd.choice([1, 2])
  T, O = {1: 13, 2: 16}, 500
  ev, out, bad, paused = [], [], [], [0]
  def data(v):
    if b == "scale":
      a = np.array([[x, 0][:ch] for x in SAMPLES[v - 1]], dtype=dt).reshape((-1, ch))
      return (a.T if fmt.endswith("p") else a).tobytes("C"), dt().itemsize * ch
    if b == "volume": return (np.array(LEVELS[v - 1], dtype=dt) / 4).astype(dt).tobytes(), dt().itemsize
    if b == "active": return bytes(x for p in FRAMES[v - 1] for x in [p] * (3 if ch == 2 else 1)), 4
    return bytes(x for r in range(g[0]) for c in range(g[1]) for x in (v, r, c, 255)), g[0] * g[1]
  def payload(t, m):
    if m["k"] == "junk": return rnd.choice([{"n": 1}, ["junk"], "junk", {"data": b"\0" * 8}])
    ts = base + m["ts"] * scale
    if t == 2: return {"timestamp": ts, **(rnd.choice([{}, {"value": "x"}, {"value": None}]) if m["v"] == BAD else {"value": m["v"] / 2})}
    if m["v"] == BAD:
      unit = data(1)[1]
      return {"timestamp": ts, **rnd.choice([{}, {"data": None}, {"data": [1]}] + ([{"data": b"\1" * (unit + 1)}, {"data": b"\1" * (unit * 3 - 1)}] if unit > 1 else []) + ([{"data": b"\1" * unit * k} for k in (1, 2, 3)] if b == "layout" else []))}
    return {"timestamp": ts, "data": data(m["v"])[0]}
  def at(d):
    if (d["timestamp"] - base) % scale: raise ValueError("time")
    return (d["timestamp"] - base) // scale
  def decode(d):
    try:
      if b in ("volume", "active"):
        if set(d) != {"timestamp", "value"}: raise ValueError("shape")
        v = d["value"]
        x = round(v * v * cfg["w"] * 4 * 1000) if b == "volume" else round(v * 4 * 1000)
        k = round(x / 1000)
        if abs(x - k * 1000) > 1: raise ValueError(f"value {v}")
        if k == 0 and pausing[0]: pausing[0] -= 1; out.append([-1, [0]])
        else: out.append([at(d), [k]])
        return
      if set(d) != {"timestamp", "data"}: raise ValueError("shape")
      if b == "scale":
        a = np.frombuffer(d["data"], dtype=dt)
        a = a.reshape((ch, -1)).T if fmt.endswith("p") else a.reshape((-1, ch))
        if ch == 2 and a[:, 1].any(): raise ValueError("channels")
        out.append([at(d), [int(x) for x in a[:, 0]]])
      else:
        a = np.frombuffer(d["data"], dtype=np.uint8).reshape((g[2] * g[3], 4))
        def px(p):
          if not any(p): return 0
          if p[3] != 255: raise ValueError(f"pixel {p}")
          return int(p[0]) * 100 + int(p[1]) * 10 + int(p[2])
        out.append([at(d), [px(p) for p in a]])
    except Exception as e: bad.append(f"{type(e).__name__}: {e} {d}"[:200])
  pausing = [0]
  def make(client):
    if b == "scale":
      from streamtasks.system.tasks.media.audiovolumescaler import AudioVolumeScalerTask as T_, AudioVolumeScalerConfig as C_
      return T_(client, C_(in_topic=T[1], scale_topic=T[2], out_topic=O, sample_format=fmt, channels=ch, default_scale=cfg["d"] / 2, synchronized=cfg["sync"]))
    if b == "volume":
      from streamtasks.system.tasks.media.audiovolumemeter import AudioVolumeMeterTask as T_, AudioVolumeMeterConfig as C_
      return T_(client, C_(in_topic=T[1], out_topic=O, sample_format=fmt, rate=1000, time_window=cfg["w"]))
    if b == "active":
      from streamtasks.system.tasks.media.videoactivitymeter import VideoActivityMeterTask as T_, VideoActivityMeterConfig as C_
      return T_(client, C_(in_topic=T[1], out_topic=O, pixel_format="bgr24" if ch == 2 else "gray", width=2, height=2, rate=rnd.choice([5, 30, 100])))
    from streamtasks.system.tasks.media.videolayout import VideoLayoutTask as T_, VideoLayoutConfig as C_
    return T_(client, C_(in_topic=T[1], out_topic=O, pixel_format=rnd.choice(["rgba", "bgra"]), rate=rnd.choice([5, 30, 100]), in_height=g[0], in_width=g[1], place_height=g[0], place_width=g[1], out_height=g[2], out_width=g[3], place_top_offset=g[4], place_left_offset=g[5]))
  async def go():
    a, e = create_queue_connection(raw=rnd.random() < 0.4)
    task = make(Client(a))
    async def net():
      while True:
        m = await e.recv()
        if isinstance(m, TopicDataMessage):
          if m.topic == O: decode(m.data.data)
          else: bad.append(f"topic {m.topic}")
        elif isinstance(m, TopicControlMessage) and m.topic == O: paused[0] = int(m.paused)
    nt = asyncio.ensure_future(net())
    await task.setup()
    rt = asyncio.ensure_future(task.run())
    for _ in range(20): await asyncio.sleep(0)
    try:
      for o in sc["ops"]:
        for x in o["ms"]:
          m, t = x["m"], x["t"]
          if m["k"] == "ctl":
            if m["v"] and t == 1: pausing[0] += 1
            await e.send(TopicControlMessage(T[t], bool(m["v"])))
          else: await e.send(TopicDataMessage(T[t], RawData(payload(t, m))))
          if rnd.random() < 0.3: await asyncio.sleep(0)
        for _ in range(40): await asyncio.sleep(0)
        end = time.monotonic() + (6 if late[0] < 2 else 0.5)
        while len(out) < o["need"] and not bad and not rt.done() and time.monotonic() < end: await asyncio.sleep(0.001)
        miss = len(out) < o["need"]
        late[0] += miss
        for x, w in ((rt, "task"), (nt, "net")):
          if x.done(): ev.append({"k": "opfail", "op": o, "why": f"{w} ended {x.exception()!r}"[:300]}); return
        pausing[0] = 0
        ev.append({**o, "obs": {"out": list(out), "bad": list(bad), "paused": paused[0]}})
        out.clear(); bad.clear()
        if miss: return
    finally: rt.cancel()
    if sc.get("stop"):
      await asyncio.wait([rt], timeout=6)
      ev.append({"k": "stop", "obs": {"ends": int(rt.done())}})
    else: await asyncio.sleep(0)
  _, err = run(go, wall=60, loop_cls=asyncio.SelectorEventLoop)
  if err: ev.append({"k": "opfail", "why": err})
  return ev

if __name__ == "__main__": main(scenario)
